"""Symbolic execution of extracted C++ functions against contracts (path by path, loops by invariants)."""
import time
import z3
from z3 import And, Or, Not, If, Implies, IntVal, BoolVal
from .sym import *
from . import theory as T
from .theory import Ctx, EMPTY, SIZE, AT, m_setback, m_back, m_setlast, m_put, m_get
from .ir import Ty


class PathEnd(Exception):
    pass


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


class CppThrow(Exception):
    def __init__(self, v, ty):
        self.v, self.ty = v, ty


class Loc(tuple):
    __slots__ = ()

    def __new__(cls, cell, path=()):
        return tuple.__new__(cls, (cell, tuple(path)))

    cell = property(lambda s: s[0])
    path = property(lambda s: s[1])

    def step(self, *st):
        return Loc(self[0], self[1] + (tuple(st),))

    def f(self, name):
        return self.step("f", name)

    def __eq__(self, o):
        return self is o or (isinstance(o, Loc) and self[0] == o[0] and len(self[1]) == len(o[1]) and all(
            steq(a, b) for a, b in zip(self[1], o[1])))

    def __hash__(self):
        return hash(self[0])


def steq(a, b):
    return len(a) == len(b) and all((x.eq(y) if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef) else x is y or (
        not isinstance(x, z3.ExprRef) and not isinstance(y, z3.ExprRef) and x == y)) for x, y in zip(a, b))


class Ob:
    """A discharged or failed proof obligation."""
    __slots__ = ("tag", "name", "line", "file", "fn", "res", "time", "model", "unrolled", "path", "backend", "assumptions", "smt")

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))

    @property
    def key(self):
        return (self.tag, self.name, self.fn)


class State:
    def __init__(self):
        self.store = {}
        self.ctx = Ctx()
        self.pc = []
        self.next_cell = 1
        self.next_sym = 0
        self.ghost = {}
        self.kstack = []
        self.hist = ()

    def clone(self):
        s = State.__new__(State)
        s.store = dict(self.store)
        s.pc = list(self.pc)
        s.ctx = self.ctx.clone()
        s.next_cell, s.next_sym = self.next_cell, self.next_sym
        s.ghost = dict(self.ghost)
        s.kstack = list(self.kstack)
        s.hist = self.hist
        return s


class Frame:
    __slots__ = ("env", "this", "fn", "scopes", "site")

    def __init__(self, fn, this=None):
        self.env, self.this, self.fn, self.scopes, self.site = {}, this, fn, [], None


def empty_init(e):
    """Whether the initialiser value-initialises everything (like T{})."""
    if e["e"] == "ilist":
        return not e.get("ne") or all(empty_init(x) for x in e["a"])
    if e["e"] == "construct":
        return not e.get("a")
    return e["e"] in ("vinit", "zero", "implicitinit") or e["e"] == "int" and int(e.get("v", 1)) == 0


def chrono_ticks(ty):
    """DateTime counts unsigned, TimeSpan signed 64-bit ticks."""
    return Ty("int", bits=64, signed=ty.x["name"].endswith("TimeSpan"))


def f64lit(fr):
    """The double constant of that (rational) value."""
    n = "f64c_" + str(fr)
    c = z3.Const(n, F64)
    if n not in T.RULES:
        T.RULES[n] = [lambda t, ctx: [T.f64real(c) == z3.Q(fr.numerator, fr.denominator), Not(f64nan(c)), f64inf(c) == 0]]
    return c


def f64value(t):
    """The value of a double constant, or None."""
    from fractions import Fraction
    n = t.decl().name() if z3.is_const(t) else ""
    return Fraction(n[5:]) if n.startswith("f64c_") else None


def box_fn(ty):
    """Boxing of element values (injective)."""
    return ty.sig()


def closed(v):
    """Whether v is the same whenever it is computed."""
    try:
        ls = leaves(v)
    except Exception:
        return False
    seen = set()

    def ok(t):
        if t.get_id() in seen:
            return True
        seen.add(t.get_id())
        if t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and "!" in t.decl().name():
            return False
        return all(ok(x) for x in t.children())
    return all(ok(t) for t in ls)


class Engine:
    MAX_PATHS = 4000
    MAX_DEPTH = 60

    def __init__(self, unit, contracts=None, lib=None, opts=None):
        self.u = unit
        self.contracts = contracts
        self.lib = lib or {}
        self.o = dict(unroll=0, deadline=None, fold_roles=None)
        self.o.update(opts or {})
        self.st = None
        self.trace = None
        self.pos = 0
        self.alts = None
        self.muted = 0
        self.obs = []
        self.depth = 0
        self.fnstack = []
        self.written = None
        self.houdini_cache = {}
        self.shared = {}
        self.called_contracts = set()
        self.inlined = set()
        self.libused = set()
        self.boxes = {}
        self.loops_seen = set()
        self.joins = {}
        self.nojoin = set()
        self.loopinfo = {}
        self.line = 0
        self.n_checks = 0
        self.prefix_len = 0
        self.after_loop = False
        self.ndec = 0           # symbolic branches taken so far (a loop condition that needs one is not concrete)
        self.live_sig = []      # candidate sets of the enclosing inference rounds

    # ---- exploration ------------------------------------------------------------------------------------------------
    def explore(self, init, run, limit=None):
        """Runs run() for every feasible decision sequence, starting from (clones of) the state init."""
        saved = (self.st, self.trace, self.pos, self.alts, self.prefix_len, self.depth, list(self.fnstack))
        queue = [()]
        n = 0
        base_hist = init.hist
        try:
            while queue:
                prefix = queue.pop()
                n += 1
                if n > (limit or self.MAX_PATHS):
                    raise Unsupported("too many paths")
                if self.o["deadline"] and time.time() > self.o["deadline"]:
                    raise Unsupported("time budget exhausted")
                self.st = init.clone()
                self.trace, self.pos, self.alts = list(prefix), 0, []
                self.prefix_len = len(prefix)
                self.depth = saved[5]
                self.fnstack = list(saved[6])
                try:
                    run()
                except PathEnd:
                    pass
                queue += self.alts
            return n
        finally:
            self.st, self.trace, self.pos, self.alts, self.prefix_len, self.depth, self.fnstack = saved

    def _take(self, options):
        """Picks the decision at the current position; options = list of feasible choices."""
        if self.pos < len(self.trace):
            c = self.trace[self.pos]
        else:
            c = options[0]
            for o in options[1:]:
                self.alts.append(tuple(self.trace) + (o,))
            self.trace.append(c)
        self.pos += 1
        if c != "T" and c != "F":
            self.st.hist = self.st.hist + (c,)
        return c

    def choose(self, n):
        return self._take(list(range(n)))

    def replaying(self):
        return self.pos < self.prefix_len

    def assume(self, c):
        c = z3.simplify(c) if isinstance(c, z3.ExprRef) else BoolVal(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathEnd()
        self.st.pc.append(c)
        self.st.ctx.add(c)

    def touch(self, t):
        """Makes the rules of the term t available."""
        c = t == t
        self.st.pc.append(c)
        self.st.ctx.add(c)

    def decide(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.trace):
            r = self._take(None)
            if r != "T" and r != "F":
                self.ndec += 1
        else:
            self.n_checks += 2
            ft = self.st.ctx.check(c, timeout=3000) != z3.unsat
            ff = self.st.ctx.check(Not(c), timeout=3000) != z3.unsat
            if ft and not ff:
                return self._det(c, True)
            if ff and not ft:
                return self._det(c, False)
            if not ft and not ff:
                raise PathEnd()
            r = self._take([True, False])
            self.ndec += 1
        if r == "T" or r == "F":
            r = r == "T"
            self.assume(c if r else Not(c))
            return r
        self.assume(c if r else Not(c))
        return r

    def _det(self, c, r):
        # recorded so that the replay consumes the same number of decisions without solving again
        self.trace.append("T" if r else "F")
        self.pos += 1
        self.assume(c if r else Not(c))
        return r

    def must(self, c):
        """Is c entailed here? (used to keep terms simple, never to skip an obligation)"""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.trace) and self.trace[self.pos] in ("mT", "mF"):
            r = self.trace[self.pos] == "mT"
            self.pos += 1
            return r
        r = self.st.ctx.check(Not(c), timeout=2000) == z3.unsat
        self.trace.append("mT" if r else "mF")
        self.pos += 1
        return r

    def oblige(self, tag, name, goal, line=None, assume_after=True):
        """Emits the proof obligation that goal holds here."""
        if isinstance(goal, bool):
            goal = BoolVal(goal)
        if not self.muted and not self.replaying():
            t0 = time.time()
            g = z3.simplify(goal)
            model = None
            if z3.is_true(g):
                r = "valid"
            else:
                rr = self.st.ctx.check(Not(g))
                r = "valid" if rr == z3.unsat else "invalid" if rr == z3.sat else "unknown"
                if r == "invalid":
                    model = self.st.ctx.model
            f = self.fnstack[-1] if self.fnstack else None
            ob = Ob(tag=tag, name=name, line=line or self.line, file=f["file"] if f else "", fn=f["diag"] if f else "", res=r,
                    time=time.time() - t0, model=str(model)[:6000] if model is not None else None,
                    unrolled=bool(self.o["unroll"]), backend="simplifier" if z3.is_true(g) else "z3")
            if self.o.get("keep_smt") and not z3.is_true(g):
                self.st.ctx.push()
                self.st.ctx.add(Not(g))
                self.st.ctx.s.add(*lit_facts(self.st.ctx.by_decl("$lit")))
                ob.smt = self.st.ctx.s.to_smt2()
                self.st.ctx.pop()
            if r == "valid" and self.o.get("trace_valid"):
                print("   ok", tag, name)
            self.obs.append(ob)
        if assume_after:
            if z3.is_false(z3.simplify(goal)):
                raise PathEnd()
            self.assume(goal)

    chrono_ticks = staticmethod(lambda ty: chrono_ticks(ty))

    def fresh_name(self, p):
        self.st.next_sym += 1
        return "%s!%d" % (p, self.st.next_sym)

    def fresh(self, sort, p="x"):
        return z3.Const(self.fresh_name(p), sort)

    # ---- values -----------------------------------------------------------------------------------------------------
    def new_cell(self, v):
        c = self.st.next_cell
        self.st.next_cell += 1
        self.st.store[c] = v
        return Loc(c)

    def fields(self, ty):
        """[(name, Ty)] of a struct from its definition (bases first)."""
        out = []
        rec = self.u.records.get(ty.key)
        if rec is None:
            return None
        for f in rec["fields"]:
            out.append((f["name"], self.u.ty(f["t"])))
        return out

    def sort_of(self, ty):
        k = ty.k
        if k in ("int", "enum"):
            return z3.IntSort()
        if k == "ast" or k == "ptr" and ty.a and ty.a[0].k == "ast":
            return z3.IntSort()
        if k == "bool":
            return z3.BoolSort()
        if k == "f64":
            return F64
        if k == "f32":
            return F32
        if k == "str":
            return Str
        if k in CONT_SORT:
            return CONT_SORT[k]
        return None

    def opaque(self, ty):
        return ty.k == "rec" and ty.x["name"].split("::")[-1].startswith("Opq")

    def fresh_value(self, ty, p):
        k = ty.k
        if k == "int":
            v = self.fresh(z3.IntSort(), p)
            self.assume(And(v >= INT_MIN[ty.x["bits"], ty.x["signed"]], v <= INT_MAX[ty.x["bits"], ty.x["signed"]]))
            return v
        if k == "enum":
            return self.fresh_value(ty.a[0], p) if ty.a[0].k == "int" else If(self.fresh_value(ty.a[0], p), IntVal(1), IntVal(0))
        s = self.sort_of(ty)
        if s is not None:
            v = self.fresh(s, p)
            if k == "ast":
                self.assume(v > 0)
            elif k == "ptr":
                self.assume(v >= 0)
            return v
        if self.opaque(ty):
            return self.fresh(Val, p)
        if k == "monostate":
            return RecV("monostate", {}, ty)
        if k == "ilist":
            return RecV("elems", {}, ty)
        if k == "cstr":
            return CharP(self.fresh(z3.BoolSort(), p + ".null"), self.fresh(Str, p + ".s"))
        if k == "strview":
            n = self.fresh(z3.BoolSort(), p + ".null")
            return RecV("strview", {"null": n, "s": If(n, lit(""), self.fresh(Str, p + ".s"))}, ty)
        if k == "sptr" and self.o.get("heap"):
            ref = self.fresh(z3.IntSort(), p + ".ref")
            self.assume(And(ref >= 0, ref < 1 << 64))
            return RecV(k, {"has": self.fresh(z3.BoolSort(), p + ".has"), "ref": ref}, ty)
        if k in ("opt", "uptr", "sptr", "wptr"):
            return RecV(k, {"has": self.fresh(z3.BoolSort(), p + ".has"), "v": self.fresh_value(ty.a[0], p + ".v")}, ty)
        if k == "pair":
            return RecV("pair", {"first": self.fresh_value(ty.a[0], p + ".first"), "second": self.fresh_value(ty.a[1], p + ".second")}, ty)
        if k == "tuple":
            return RecV("tuple", {str(i): self.fresh_value(t, p + "." + str(i)) for i, t in enumerate(ty.a)}, ty)
        if k == "variant":
            idx = self.fresh(z3.IntSort(), p + ".idx")
            vl = self.fresh(z3.BoolSort(), p + ".vl")
            self.assume(And(idx >= 0, idx < len(ty.a)))
            f = {"vl": vl, "idx": idx}
            for i, t in enumerate(ty.a):
                f[str(i)] = self.fresh_value(t, p + "." + str(i))
            return RecV("variant", f, ty)
        if k == "chrono":
            return RecV("chrono", {"ticks": self.fresh_value(chrono_ticks(ty), p + ".ticks")}, ty)
        if k == "rj" and ty.x["name"] in ("rapidjson::GenericValue", "rapidjson::GenericDocument"):
            return self.fresh_json(p)
        if k == "rec":
            h = self.lib.get("fresh:" + ty.x["name"])
            if h:
                return h(self, ty, p)
            fs = self.fields(ty)
            if fs is not None:
                return RecV("rec", {n: self.fresh_value(t, p + "." + n) for n, t in fs}, ty)
        raise Unsupported("fresh value of type %r" % ty)

    def fresh_json(self, p):
        v = self.fresh(J, p)
        for f in T.json_facts(v):
            self.assume(f)
        return v

    def vinit(self, ty):
        """Value-initialised object."""
        k = ty.k
        if k in ("int", "enum"):
            return IntVal(0)
        if k == "bool":
            return FALSE
        if k == "f64":
            return self.f64const(0)
        if k == "f32":
            return T.f32_of_int(IntVal(0)) if False else z3.Const("f32_zero", F32)
        if k == "str":
            return lit("")
        if k in EMPTY:
            return EMPTY[k]
        if self.opaque(ty):
            return z3.Const("vinit_" + ty.sig(), Val)
        if k == "monostate":
            return RecV("monostate", {}, ty)
        if k == "cstr":
            return CharP(TRUE, lit(""))
        if k == "ast" or k == "ptr" and ty.a and ty.a[0].k == "ast":
            return IntVal(0)
        if k == "ptr":
            return PtrV(True, None)
        if k == "strview":
            return RecV("strview", {"null": TRUE, "s": lit("")}, ty)
        if k == "sptr" and self.o.get("heap"):
            return RecV(k, {"has": FALSE, "ref": IntVal(0)}, ty)
        if k in ("opt", "uptr", "sptr", "wptr"):
            return RecV(k, {"has": FALSE, "v": self.vinit(ty.a[0])}, ty)
        if k == "pair":
            return RecV("pair", {"first": self.vinit(ty.a[0]), "second": self.vinit(ty.a[1])}, ty)
        if k == "tuple":
            return RecV("tuple", {str(i): self.vinit(t) for i, t in enumerate(ty.a)}, ty)
        if k == "variant":
            f = {"vl": FALSE, "idx": IntVal(0)}
            for i, t in enumerate(ty.a):
                f[str(i)] = self.vinit(t)
            return RecV("variant", f, ty)
        if k == "chrono":
            return RecV("chrono", {"ticks": IntVal(0)}, ty)
        if k == "rj" and ty.x["name"] in ("rapidjson::GenericValue", "rapidjson::GenericDocument"):
            return J.jnull
        if k == "rec":
            h = self.lib.get("vinit:" + ty.x["name"])
            if h:
                return h(self, ty)
            fs = self.fields(ty)
            if fs is not None:
                return RecV("rec", {n: self.vinit(t) for n, t in fs}, ty)
            if ty.x["name"].split("::")[-1] in ("integer_sequence", "integral_constant", "in_place_t", "in_place_type_t", "in_place_index_t", "less", "hash", "equal_to"):
                return RecV("rec", {}, ty)  # no state
        if k == "ilist":
            return RecV("elems", {}, ty)
        raise Unsupported("value-initialised %r" % ty)

    def dinit(self, ty):
        """Default-initialised object (scalars indeterminate)."""
        k = ty.k
        if k in ("int", "enum", "bool", "f64", "f32", "cstr", "ptr"):
            return UNINIT
        if self.opaque(ty):
            return z3.Const("indeterminate_" + ty.sig(), Val)
        if k in ("pair", "tuple", "variant"):
            return self.vinit(ty)
        if k == "rec":
            fs = self.fields(ty)
            if fs is not None and not self.lib.get("vinit:" + ty.x["name"]):
                refs = {x["name"] for x in self.u.records[ty.key]["fields"] if self.u.is_ref(x["t"])}
                return RecV("rec", {n: UNINIT if n in refs else self.dinit(t) for n, t in fs}, ty)
        return self.vinit(ty)

    def f64const(self, x):
        from fractions import Fraction
        fr = Fraction(x)
        return f64lit(fr)

    # boxing
    def box(self, v, ty):
        if isinstance(v, z3.ExprRef) and v.sort() == Val and self.opaque(ty):
            return v
        if isinstance(v, Uninit):
            return z3.Const("indeterminate_" + ty.sig(), Val)
        h = self.lib.get("box:" + ty.k)
        if h:
            r = h(self, v, ty)
            if r is not None:
                return r
        ls = leaves(v)
        name = ty.sig()
        if name not in self.boxes:
            f = z3.Function("box<%s>" % name, *([l.sort() for l in ls] + [Val])) if ls else None
            us = [z3.Function("unbox<%s>.%d" % (name, i), Val, l.sort()) for i, l in enumerate(ls)]
            self.boxes[name] = (f, us, v)
            if ty.k in ("int", "enum"):
                it = ty.a[0] if ty.k == "enum" else ty
                if it.k == "int":
                    lo, hi = INT_MIN[it.x["bits"], it.x["signed"]], INT_MAX[it.x["bits"], it.x["signed"]]
                    T.RULES["unbox<%s>.0" % name] = [lambda t, c, lo=lo, hi=hi: [t >= lo, t <= hi]]
            if f is not None:
                def r(t, c, us=us):
                    return [u(t) == a for u, a in zip(us, t.children())]
                T.RULES["box<%s>" % name] = [r]
        f, us, _ = self.boxes[name]
        if f is None:
            return z3.Const("box<%s>" % name, Val)
        if all(T.app(l, u) and l.arg(0).eq(ls[0].arg(0)) for l, u in zip(ls, us)):
            return ls[0].arg(0)
        return f(*ls)

    def unbox(self, b, ty):
        if self.opaque(ty):
            return b
        h = self.lib.get("unbox:" + ty.k)
        if h:
            r = h(self, b, ty)
            if r is not None:
                return r
        name = ty.sig()
        if name not in self.boxes:
            self.box(self.vinit(ty), ty)
        f, us, shape = self.boxes[name]
        if f is None:
            return shape
        if T.app(b, f):
            return rebuild(shape, iter(b.children()))
        return rebuild(shape, iter([u(b) for u in us]))

    # ---- memory -----------------------------------------------------------------------------------------------------
    def proj(self, v, st):
        k = st[0]
        if k == "f":
            if not isinstance(v, RecV) or st[1] not in v.f:
                raise Unsupported("member %s of %r" % (st[1], v))
            return v.f[st[1]]
        if k == "deref":
            return v.f["v"]
        if k == "alt":
            return v.f[str(st[1])]
        if k == "back":
            return self.unbox(m_back(v), st[1])
        if k == "at":
            if v.sort() == SeqS and T.app(v, T.seq_upd) and v.arg(1).eq(st[1]):
                return self.unbox(v.arg(2), st[2])
            return self.unbox({SeqS: T.seq_at, SetS: T.set_at, MSetS: T.ms_at}[v.sort()](v, st[1]), st[2])
        if k == "key":
            return self.unbox(m_get(v, st[1]), st[2])
        if k == "mel":
            return RecV("pair", {"first": self.unbox(st[1], st[2]), "second": self.unbox(m_get(v, st[1]), st[3])})
        if k == "mit":
            ka, va = (T.mp_keyat, T.mp_valat) if v.sort() == MapS else (T.mm_keyat, T.mm_valat)
            return RecV("pair", {"first": self.unbox(ka(v, st[1]), st[2]), "second": self.unbox(va(v, st[1]), st[3])})
        if k == "mmlast":
            x = v.arg(2) if T.app(v, T.mm_ins) else v.arg(1) if T.app(v, T.mm_setlast) else None
            if x is None:
                raise Unsupported("multimap element behind an inserted iterator")
            return self.unbox(x, st[1])
        if k == "jel":
            return T.jat(J.aval(v), st[1])
        if k == "jmv":
            return T.mval(J.oval(v), st[1])
        if k == "jmn":
            return J.jstr(T.mname(J.oval(v), st[1]))
        h = self.lib.get("proj:" + k)
        if h:
            return h(self, v, st)
        raise Unsupported("projection " + k)

    def upd(self, v, st, nv):
        k = st[0]
        if k == "f":
            return v.with_(st[1], nv)
        if k == "deref":
            return v.with_("v", nv)
        if k == "alt":
            return v.with_(str(st[1]), nv)
        if k == "back":
            return m_setback(v, self.box(nv, st[1]))
        if k == "at":
            if v.sort() != SeqS:
                raise Unsupported("writing to a set element")
            b = self.box(nv, st[2])
            if T.app(v, T.seq_upd) and v.arg(1).eq(st[1]):
                return T.seq_upd(v.arg(0), st[1], b)
            return T.seq_upd(v, st[1], b)
        if k == "key":
            return m_put(v, st[1], self.box(nv, st[2]))
        if k == "mel":
            return m_put(v, st[1], self.box(nv.f["second"], st[3]))
        if k == "mmlast":
            return m_setlast(v, self.box(nv, st[1]))
        if k == "jel":
            raise Unsupported("writing to an array element")
        if k == "jmv":
            return J.jobj(T.mset(J.oval(v), st[1], nv))
        h = self.lib.get("upd:" + k)
        if h:
            return h(self, v, st, nv)
        raise Unsupported("update through " + k)

    def load(self, loc):
        if not isinstance(loc, Loc):
            return loc
        if loc.cell not in self.st.store:
            raise Unsupported("load from unknown cell")
        v = self.st.store[loc.cell]
        for i, s in enumerate(loc.path):
            if s[0] == "deref" and self.moved_away(v):
                return self.load(self.moved_to(loc, i))
            v = self.proj(v, s)
        return v

    def moved_away(self, v):
        """An empty unique_ptr: a reference into its former pointee follows the pointee to its new owner."""
        return isinstance(v, RecV) and v.kind == "uptr" and z3.is_false(as_bool(v.f["has"]))

    def moved_to(self, loc, i):
        d = self.st.ghost.get("moved", {}).get((loc.cell, tuple(map(str, loc.path[:i]))))
        if d is None:
            raise Unsupported("reference into an object whose owner was emptied")
        return Loc(d.cell, list(d.path) + list(loc.path[i:]))

    def move_owner(self, src, dst):
        """`*dst = std::move(*src)` for unique_ptr: the pointee itself does not move."""
        m = dict(self.st.ghost.get("moved", {}))
        key = lambda l: (l.cell, tuple(map(str, l.path)))
        m.pop(key(dst), None)
        if dst is not src:
            m[key(src)] = dst
        self.st.ghost["moved"] = m

    def store(self, loc, nv):
        if self.written is not None:
            p = []
            for s in loc.path:
                if s[0] != "f":
                    break
                p.append(s)
            self.written.append(Loc(loc.cell, p))
        if "on_store" in self.o:
            self.o["on_store"](loc)
        root = self.st.store[loc.cell]
        vs = [root]
        for i, s in enumerate(loc.path):
            if s[0] == "deref" and self.moved_away(vs[-1]):
                return self.store(self.moved_to(loc, i), nv)
            if i < len(loc.path) - 1:
                vs.append(self.proj(vs[-1], s))
        for i in range(len(loc.path) - 1, -1, -1):
            nv = self.upd(vs[i], loc.path[i], nv)
        self.st.store[loc.cell] = nv

    def val(self, a):
        return self.load(a) if isinstance(a, Loc) else a

    def as_loc(self, a):
        return a if isinstance(a, Loc) else self.new_cell(a)

    def tobool(self, v):
        if isinstance(v, z3.ExprRef) and v.sort() == z3.BoolSort():
            return v
        if isinstance(v, z3.ExprRef) and v.sort() == z3.IntSort():
            return v != 0
        if isinstance(v, PtrV):
            return Not(as_bool(v.null))
        if isinstance(v, CharP):
            return Not(v.null)
        if isinstance(v, RecV) and "has" in v.f:
            return v.f["has"]
        if isinstance(v, FnV):
            return TRUE
        if isinstance(v, Uninit):
            self.oblige("J03", "no use of an indeterminate value", FALSE)
        if isinstance(v, IterV):
            return TRUE
        raise Unsupported("bool of %r" % (v,))

    # ---- arithmetic -------------------------------------------------------------------------------------------------
    def wrap(self, v, ty, what=None):
        """The value v reduced to the range of the integer type."""
        if ty.k == "enum":
            ty = ty.a[0]
        if ty.k == "bool":
            return If(v != 0, IntVal(1), IntVal(0))
        lo, hi = INT_MIN[ty.x["bits"], ty.x["signed"]], INT_MAX[ty.x["bits"], ty.x["signed"]]
        v = z3.simplify(v)
        if z3.is_int_value(v):
            n = v.as_long()
            if lo <= n <= hi:
                return v
            m = (n - lo) % (1 << ty.x["bits"]) + lo
            return IntVal(m)
        if self.must(And(v >= lo, v <= hi)):
            return v
        M = 1 << ty.x["bits"]
        return If(And(v >= lo, v <= hi), v, (v - lo) % M + lo)

    def arith(self, v, ty, line):
        """Result of an arithmetic operation in type ty: wraps if unsigned, must not overflow if signed."""
        t = ty.a[0] if ty.k == "enum" else ty
        if t.k != "int":
            return v
        if t.x["signed"]:
            lo, hi = INT_MIN[t.x["bits"], True], INT_MAX[t.x["bits"], True]
            g = And(v >= lo, v <= hi)
            if not self.must(g):
                self.oblige("UB", "no signed overflow", g)
            return z3.simplify(v)
        return self.wrap(v, t)

    def bitop(self, op, a, b, ty):
        a, b = z3.simplify(a), z3.simplify(b)
        if z3.is_int_value(a) and z3.is_int_value(b):
            x, y = a.as_long(), b.as_long()
            return IntVal({"&": x & y, "|": x | y, "^": x ^ y}[op])
        if z3.is_int_value(a):
            a, b = b, a
        bits = ty.x["bits"]
        if op == "&" and z3.is_int_value(b):
            m = b.as_long()
            if m >= 0:
                if m == 0:
                    return IntVal(0)
                # contiguous low mask
                if m & (m + 1) == 0:
                    return a % (m + 1)
                parts = []
                i = 0
                while m >> i:
                    if m >> i & 1:
                        j = i
                        while m >> j & 1:
                            j += 1
                        parts.append((a / (1 << i) % (1 << (j - i))) * (1 << i))
                        i = j
                    else:
                        i += 1
                return z3.Sum(*parts) if len(parts) > 1 else parts[0]
        if op == "|" and z3.is_int_value(b) and b.as_long() == 0:
            return a
        w = min(bits, 64)
        x, y = z3.Int2BV(a, w), z3.Int2BV(b, w)
        r = {"&": x & y, "|": x | y, "^": x ^ y}[op]
        return z3.BV2Int(r, is_signed=ty.x["signed"])

    # ---- expressions ------------------------------------------------------------------------------------------------
    def ev(self, e, fr):
        if "l" in e:
            self.line = e["l"]
        m = getattr(self, "e_" + e["e"], None)
        if m is None:
            raise Unsupported("expression %s at line %s" % (e["e"] if e["e"] != "unsupported" else e.get("cls"), e.get("l")))
        return m(e, fr)

    def rv(self, e, fr):
        """Evaluates and loads."""
        return self.val(self.ev(e, fr))

    def e_int(self, e, fr):
        t = self.u.ty(e["t"])
        if t.k == "bool":
            return BoolVal(int(e["v"]) != 0)
        return IntVal(int(e["v"]))

    def e_float(self, e, fr):
        t = self.u.ty(e["t"])
        c = self.f64const(float(e["v"]))
        return c if t.k == "f64" else f32_of_f64(c)

    def e_str(self, e, fr):
        return self.new_cell(CharP(FALSE, lit(e["v"]), True))

    def e_nullptr(self, e, fr):
        return PtrV(True, None)

    def e_this(self, e, fr):
        return PtrV(False, fr.this)

    def e_new(self, e, fr):
        """A new object: a cell of its own; the owner which adopts the pointer takes the object out of it."""
        t = self.u.ty(e["at"])
        v = self.val(self.ev(e["x"], fr)) if "x" in e else self.dinit(t)
        c = self.new_cell(v)
        self.st.ghost["new"] = self.st.ghost.get("new", frozenset()) | {c.cell}
        return PtrV(False, c)

    def adopt(self, p):
        """The object behind a pointer just obtained from `new`; the cell is dead afterwards."""
        l = p.loc
        if l is None or l.path or l.cell not in self.st.ghost.get("new", ()) or not z3.is_false(as_bool(p.null)):
            raise Unsupported("ownership of a raw pointer")
        v = self.st.store.pop(l.cell)
        self.st.ghost["new"] = self.st.ghost["new"] - {l.cell}
        return v

    def e_var(self, e, fr):
        i = e["id"]
        if i in fr.env:
            return fr.env[i]
        if e.get("global"):
            g = self.lib.get("global:" + e["name"])
            if g:
                return g(self, e)
            if "gs" in e:
                return self.new_cell(CharP(FALSE, lit(e["gs"]), True))
            if "gv" in e:
                t = self.u.ty(e["t"])
                return self.new_cell(BoolVal(int(e["gv"]) != 0) if t.k == "bool" else IntVal(int(e["gv"])))
        if e["name"] == "nullopt":
            return RecV("nullopt", {})
        h = self.lib.get("var")
        if h:
            r = h(self, e, fr)
            if r is not None:
                return r
        raise Unsupported("variable %s" % e["name"])

    def e_mem(self, e, fr):
        b = self.ev(e["x"], fr)
        if e["arrow"]:
            b = self.deref(self.val(b), e)
        if isinstance(b, Loc):
            h = self.lib.get("mem")
            if h:
                r = h(self, b, e)
                if r is not None:
                    return r
            if e.get("cls") and self.ref_member(e):
                return self.load(b.f(e["name"])).loc
            return b.f(e["name"])
        if isinstance(b, RecV):
            return b.f[e["name"]]
        raise Unsupported("member %s of %r" % (e["name"], b))

    def ref_member(self, e):
        key = (e["cls"], e["name"])
        c = self.u.__dict__.setdefault("_refmem", {})
        if key not in c:
            r = self.u.records.get(e["cls"])
            c[key] = bool(r) and any(f["name"] == e["name"] and self.u.is_ref(f["t"]) for f in r["fields"])
        return c[key]

    def deref(self, p, e=None):
        if isinstance(p, PtrV):
            n = as_bool(p.null)
            if not z3.is_false(n):
                self.oblige("J03", "no null pointer dereference", Not(n))
            return p.loc
        if isinstance(p, IterV):
            h = self.lib.get("deref:" + p.kind)
            if h:
                return h(self, p)
        if isinstance(p, CharP):
            h = self.lib.get("deref:charp")
            if h:
                return h(self, p)
        if isinstance(p, Uninit):
            self.oblige("J03", "no use of an indeterminate pointer", FALSE)
        if isinstance(p, z3.ExprRef) and p.sort() == z3.IntSort():
            # a handle of an AST node
            self.oblige(self.o.get("gn", "GN"), "no null pointer dereference", p != 0)
            return self.new_cell(p)
        raise Unsupported("dereference of %r" % (p,))

    def e_load(self, e, fr):
        v = self.val(self.ev(e["x"], fr))
        if isinstance(v, Uninit):
            self.oblige("UB", "no read of an indeterminate value", FALSE)
        return v

    def e_cast(self, e, fr):
        ck = e["ck"]
        v = self.ev(e["x"], fr)
        t = self.u.ty(e["t"])
        return self.cast(ck, v, t, self.u.ty(e["x"]["t"]), e)

    def cast(self, ck, v, t, ft, e=None):
        if ck in ("PointerToBoolean", "IntegralToBoolean", "FloatingToBoolean", "MemberPointerToBoolean"):
            v = self.val(v)
            if isinstance(v, z3.ExprRef) and v.sort() in (F64, F32):
                r = Or(f64nan(v), f64real(v) != 0) if v.sort() == F64 else self.fresh(z3.BoolSort())
            else:
                r = self.tobool(v)
            return If(r, IntVal(1), IntVal(0)) if t.k == "enum" else r
        if ck == "IntegralCast":
            v = self.val(v)
            if isinstance(v, z3.BoolRef):
                v = If(v, IntVal(1), IntVal(0))
            if isinstance(v, Uninit):
                self.oblige("UB", "no read of an indeterminate value", FALSE)
            if t.k == "bool":
                return v != 0
            return self.wrap(v, t)
        if ck == "FloatingToIntegral":
            v = self.val(v)
            if v.sort() == F32:
                v = f64_of_f32(v)
            if t.k == "enum":
                t = t.a[0]
            lo, hi = INT_MIN[t.x["bits"], t.x["signed"]], INT_MAX[t.x["bits"], t.x["signed"]]
            r = f64real(v)
            tr = If(r >= 0, z3.ToInt(r), -z3.ToInt(-r))
            self.oblige("FPCONV", "floating-point value fits the integer type it is converted to",
                        And(Not(f64nan(v)), f64inf(v) == 0, tr >= lo, tr <= hi))
            return tr
        if ck == "IntegralToFloating":
            v = self.val(v)
            if isinstance(v, z3.BoolRef):
                v = If(v, IntVal(1), IntVal(0))
            vs = z3.simplify(v)
            if z3.is_int_value(vs) and t.k == "f64":
                from fractions import Fraction
                return f64lit(Fraction(float(vs.as_long())))
            d = f64_of_int(v)
            return d if t.k == "f64" else f32_of_int(v)
        if ck == "FloatingCast":
            v = self.val(v)
            s = {"f64": F64, "f32": F32}.get(t.k)
            if s is None:
                raise Unsupported("long double")
            if v.sort() == s:
                return v
            if t.k == "f64" and T.app(v, f32_of_f64) and f64value(v.arg(0)) is not None:
                import struct
                x = f64value(v.arg(0))
                try:
                    if struct.unpack("f", struct.pack("f", float(x)))[0] == x:
                        return v.arg(0)
                except OverflowError:
                    pass
            return f32_of_f64(v) if t.k == "f32" else f64_of_f32(v)
        if ck == "NullToPointer" and t.k == "ptr" and t.a and t.a[0].k == "ast":
            return IntVal(0)
        if ck == "NullToPointer":
            return PtrV(True, None) if t.k != "cstr" else CharP(TRUE, lit(""), True)
        if ck == "ArrayToPointerDecay":
            h = self.lib.get("decay")
            if h:
                r = h(self, v, t)
                if r is not None:
                    return r
            return self.val(v)
        if ck in ("FunctionToPointerDecay", "BuiltinFnToFnPtr"):
            return v
        if ck in ("UncheckedDerivedToBase", "DerivedToBase", "BaseToDerived", "Dynamic"):
            h = self.lib.get("basecast")
            if h:
                r = h(self, ck, v, t, ft, e)
                if r is not None:
                    return r
            return v
        if ck in ("ConstructorConversion", "UserDefinedConversion", "NoOp", "LValueBitCast"):
            return v
        if ck == "ToVoid":
            return None
        if ck in ("BitCast", "PointerToIntegral"):
            h = self.lib.get("bitcast")
            if h:
                r = h(self, v, t, ft)
                if r is not None:
                    return r
        raise Unsupported("cast %s" % ck)

    def e_mat(self, e, fr):
        v = self.ev(e["x"], fr)
        return v if isinstance(v, Loc) else self.new_cell(v)

    def e_bin(self, e, fr):
        op = e["op"]
        a, b = e["a"]
        if op == ",":
            self.ev(a, fr)
            return self.ev(b, fr)
        if op == "&&":
            if not self.decide(self.tobool(self.rv(a, fr))):
                return FALSE
            return self.tobool(self.rv(b, fr))
        if op == "||":
            if self.decide(self.tobool(self.rv(a, fr))):
                return TRUE
            return self.tobool(self.rv(b, fr))
        if op == "=":
            vb = self.ev(b, fr)
            la = self.ev(a, fr)
            self.store(la, self.val(vb))
            return la
        x, y = self.rv(a, fr), self.rv(b, fr)
        return self.binop(op, x, y, self.u.ty(e["t"]), self.u.ty(a["t"]), e.get("l"))

    def binop(self, op, x, y, ty, opty, line=None):
        if isinstance(x, Uninit) or isinstance(y, Uninit):
            self.oblige("UB", "no read of an indeterminate value", FALSE)
        if isinstance(x, z3.BoolRef) and isinstance(y, z3.BoolRef) and op in ("==", "!="):
            return x == y if op == "==" else x != y
        if isinstance(x, z3.BoolRef):
            x = If(x, IntVal(1), IntVal(0))
        if isinstance(y, z3.BoolRef):
            y = If(y, IntVal(1), IntVal(0))
        if isinstance(x, IterV) or isinstance(y, IterV):
            return self.iterop(op, x, y)
        if op in ("==", "!=") and not (isinstance(x, z3.ExprRef) and x.sort() in (F64, F32)):
            r = self.cmp_eq(x, y)
            return r if op == "==" else Not(r)
        if isinstance(x, CharP) and isinstance(y, z3.ExprRef):
            h = self.lib.get("charp_arith")
            if h:
                return h(self, op, x, y)
        if not (isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef)):
            raise Unsupported("operator %s on %r, %r" % (op, x, y))
        if x.sort() == F32 or y.sort() == F32:
            x, y = f64_of_f32(x), f64_of_f32(y)
        if x.sort() == F64:
            if op in ("<", "<=", ">", ">=", "==", "!="):
                nan = Or(f64nan(x), f64nan(y))
                # infinities: compare (inf, real) lexicographically
                ix, iy, rx, ry = f64inf(x), f64inf(y), f64real(x), f64real(y)
                lt = Or(ix < iy, And(ix == 0, iy == 0, rx < ry))
                gt = Or(ix > iy, And(ix == 0, iy == 0, rx > ry))
                eq = And(ix == iy, Or(ix != 0, rx == ry))
                return {"<": And(Not(nan), lt), ">": And(Not(nan), gt), "<=": And(Not(nan), Or(lt, eq)), ">=": And(Not(nan), Or(gt, eq)),
                        "==": And(Not(nan), eq), "!=": Or(nan, Not(eq))}[op]
            if op in "+-*/":
                cx, cy = f64value(x), f64value(y)
                if cx is not None and cy is not None and (op != "/" or cy != 0):
                    from fractions import Fraction
                    r = {"+": lambda: cx + cy, "-": lambda: cx - cy, "*": lambda: cx * cy, "/": lambda: cx / cy}[op]()
                    if abs(r) < 2 ** 1000:
                        return f64lit(Fraction(float(r)))       # correctly rounded
                return z3.Function("f64_" + {"+": "add", "-": "sub", "*": "mul", "/": "div"}[op], F64, F64, F64)(x, y)
            raise Unsupported("floating point " + op)
        if op in ("<", "<=", ">", ">="):
            return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
        it = ty.a[0] if ty.k == "enum" else ty
        if op in "+-*":
            return self.arith({"+": x + y, "-": x - y, "*": x * y}[op], it, line)
        if op in ("/", "%"):
            self.oblige("UB", "no division by zero", y != 0)
            q = If(x >= 0, x / If(y > 0, y, -y) * If(y > 0, IntVal(1), IntVal(-1)), -((-x) / If(y > 0, y, -y)) * If(y > 0, IntVal(1), IntVal(-1))) \
                if it.k == "int" and it.x["signed"] else x / y
            if op == "/":
                return self.arith(q, it, line)
            return x - q * y if it.k == "int" and it.x["signed"] else x % y
        if op in ("&", "|", "^"):
            if it.k == "bool":
                r = self.bitop(op, x, y, Ty("int", bits=32, signed=True))
                return r != 0
            return self.bitop(op, x, y, it)
        if op in ("<<", ">>"):
            ys = z3.simplify(y)
            if not z3.is_int_value(ys):
                if op == "<<" and z3.is_int_value(z3.simplify(x)):
                    # constant << variable: expand over the possible amounts
                    self.oblige("UB", "shift amount within the width", And(y >= 0, y < it.x["bits"]))
                    r = IntVal(0)
                    for i in range(it.x["bits"]):
                        r = If(y == i, x * (1 << i), r)
                    return self.wrap(r, it)
                self.oblige("UB", "shift amount within the width", And(y >= 0, y < it.x["bits"]))
                r = IntVal(0)
                for i in range(it.x["bits"]):
                    r = If(y == i, x * (1 << i) if op == "<<" else x / (1 << i), r)
                return self.wrap(r, it)
            n = ys.as_long()
            if not 0 <= n < it.x["bits"]:
                self.oblige("UB", "shift amount within the width", FALSE)
            return self.wrap(x * (1 << n), it) if op == "<<" else x / (1 << n)
        raise Unsupported("operator " + op)

    def cmp_eq(self, x, y):
        if isinstance(x, CharP) and isinstance(y, CharP):
            if z3.is_true(as_bool(x.null)) or z3.is_true(as_bool(y.null)):
                return x.null == y.null
            raise Unsupported("comparison of char pointers")
        if isinstance(x, (PtrV, CharP)) and isinstance(y, (PtrV, CharP)):
            if isinstance(x, CharP):
                x, y = y, x
            if isinstance(y, CharP):
                if as_bool(x.null) is not None and z3.is_true(as_bool(x.null)):
                    return y.null
        return eqv(x, y)

    def iterop(self, op, x, y):
        if isinstance(x, IterV) and isinstance(y, IterV):
            if op in ("==", "!=") and x.loc == y.loc and {x.kind, y.kind} in ({"mapel", "cont"}, {"setel", "cont"}):
                # an iterator to an existing element (found by key) is not the end iterator
                c = x if x.kind == "cont" else y
                m = self.load(c.loc)
                n = {SetS: T.set_size, MSetS: T.ms_size, MapS: T.mp_size}[m.sort()](m)
                if self.must(c.pos == n):
                    return BoolVal(op == "!=")
            if x.kind != y.kind or not (x.loc == y.loc):
                h = self.lib.get("itercmp")
                r = h(self, op, x, y) if h else None
                if r is None:
                    raise Unsupported("iterators of different containers %r %r" % (x, y))
                return r
            return {"==": lambda: x.pos == y.pos, "!=": lambda: x.pos != y.pos, "<": lambda: x.pos < y.pos, "<=": lambda: x.pos <= y.pos,
                    ">": lambda: x.pos > y.pos, ">=": lambda: x.pos >= y.pos, "-": lambda: x.pos - y.pos}[op]()
        if isinstance(x, IterV):
            if op in ("+", "-"):
                return IterV(x.kind, x.loc, z3.simplify(x.pos + y if op == "+" else x.pos - y), x.ty)
            if op in ("==", "!=") and isinstance(y, PtrV):
                return FALSE if op == "==" else TRUE
        if isinstance(y, IterV) and op == "+":
            return IterV(y.kind, y.loc, z3.simplify(y.pos + x), y.ty)
        raise Unsupported("iterator operator " + op)

    def e_cassign(self, e, fr):
        b = self.rv(e["a"][1], fr)
        la = self.ev(e["a"][0], fr)
        x = self.val(la)
        h = self.lib.get("cassign")
        if isinstance(x, (IterV, CharP)):
            r = self.binop(e["op"], x, b, None, None)
        else:
            ct = self.u.ty(e["ct"]) if "ct" in e else self.u.ty(e["t"])
            lt = self.u.ty(e["t"])
            if isinstance(x, z3.BoolRef):
                x = If(x, IntVal(1), IntVal(0))
            r = self.binop(e["op"], x, b, ct, ct)
            if lt.k == "bool":
                r = self.tobool(r)
            elif lt.k in ("int", "enum"):
                if isinstance(r, z3.BoolRef):
                    r = If(r, IntVal(1), IntVal(0))
                r = self.wrap(r, lt)
        self.store(la, r)
        return la

    def e_un(self, e, fr):
        op = e["op"]
        if op in ("++", "--"):
            la = self.ev(e["x"], fr)
            x = self.val(la)
            d = 1 if op == "++" else -1
            if isinstance(x, IterV):
                n = IterV(x.kind, x.loc, z3.simplify(x.pos + d), x.ty)
            elif isinstance(x, CharP):
                n = self.binop("+" if d == 1 else "-", x, IntVal(1), None, None)
            else:
                n = self.arith(x + d, self.u.ty(e["x"]["t"]), e.get("l"))
            self.store(la, n)
            return x if e["post"] else la
        if op == "*":
            v = self.rv(e["x"], fr)
            if isinstance(v, FnV):
                return v
            return self.deref(v, e)
        if op == "&":
            a = self.ev(e["x"], fr)
            if isinstance(a, FnV):
                return a
            if isinstance(a, z3.ExprRef) and a.sort() == z3.IntSort() and self.sort_of(self.u.ty(e["t"])) is not None:
                return a  # a node of the syntax tree
            if not isinstance(a, Loc):
                raise Unsupported("address of a value")
            h = self.lib.get("addrof")
            if h:
                r = h(self, a, e)
                if r is not None:
                    return r
            return PtrV(False, a)
        v = self.rv(e["x"], fr)
        if op == "!":
            return Not(self.tobool(v))
        if isinstance(v, z3.BoolRef):
            v = If(v, IntVal(1), IntVal(0))
        if op == "-":
            if isinstance(v, z3.ExprRef) and v.sort() == F64:
                return z3.Function("f64_neg", F64, F64)(v)
            return self.arith(-v, self.u.ty(e["t"]), e.get("l"))
        if op == "+":
            return v
        if op == "~":
            t = self.u.ty(e["t"])
            return self.wrap(-v - 1, t)
        raise Unsupported("unary " + op)

    def e_cond(self, e, fr):
        c, a, b = e["a"]
        if self.decide(self.tobool(self.rv(c, fr))):
            return self.ev(a, fr)
        return self.ev(b, fr)

    def e_throw(self, e, fr):
        if "x" not in e or e["x"] is None:
            ex = self.st.ghost.get("current_exc")
            if ex is None:
                raise Unsupported("rethrow")
            raise CppThrow(ex[0], ex[1])
        v = self.rv(e["x"], fr)
        raise CppThrow(v, self.u.ty(e["x"]["t"]))

    def e_lambda(self, e, fr):
        env = {}
        this = None
        for c in e["caps"]:
            if c.get("this"):
                this = fr.this
                continue
            if "init" in c and c["init"] is not None:
                v = self.ev(c["init"], fr)
                env[c["id"]] = (v if isinstance(v, Loc) else self.new_cell(v)) if c.get("ref") else self.new_cell(self.val(v))
                continue
            l = fr.env.get(c["id"])
            if l is None:
                continue
            env[c["id"]] = l if c.get("ref") else self.new_cell(self.load(l))
        return LamV(e.get("rec"), env, this if this is not None else fr.this, e["ops"])

    def e_ilist(self, e, fr):
        t = self.u.ty(e["t"])
        h = self.lib.get("ilist")
        if h:
            r = h(self, e, t, fr)
            if r is not None:
                return r
        if t.k == "rec" and not self.opaque(t):
            fs = self.fields(t)
            if fs is not None:
                vals = [self.rv(x, fr) for x in e["a"]]
                f = {}
                for i, (n, ft) in enumerate(fs):
                    f[n] = vals[i] if i < len(vals) else self.vinit(ft)
                return RecV("rec", f, t)
        if not e["a"] or (self.opaque(t) and (not e["ne"] or empty_init(e))):
            return self.vinit(t)
        if len(e["a"]) == 1 and not self.opaque(t):
            return self.rv(e["a"][0], fr)
        raise Unsupported("initialiser list of %r %s" % (t, [(x["e"], x.get("ne")) for x in e["a"]]))

    def e_zero(self, e, fr):
        return self.vinit(self.u.ty(e["t"]))

    def e_fn(self, e, fr):
        return FnV(e["fn"])

    def e_memfn(self, e, fr):
        return FnV(e.get("fn"))

    def e_index(self, e, fr):
        b = self.rv(e["a"][0], fr) if "a" in e else self.rv(e["x"], fr)
        i = self.rv(e["a"][1], fr)
        h = self.lib.get("index")
        if h:
            r = h(self, b, i)
            if r is not None:
                return r
        if isinstance(b, IterV):
            return self.deref(IterV(b.kind, b.loc, z3.simplify(b.pos + i), b.ty))
        raise Unsupported("array subscript")

    def e_sizeof(self, e, fr):
        return IntVal(int(e["v"]))

    def e_stdinit(self, e, fr):
        return self.ev(e["x"], fr)

    def e_inhctor(self, e, fr):
        raise Unsupported("inherited constructor")

    # ---- calls ------------------------------------------------------------------------------------------------------
    def e_ctor(self, e, fr):
        fn = e["fn"]
        t = self.u.ty(e["t"])
        kind = fn["kind"]
        args = [self.ev(a, fr) for a in e["a"]]
        if "l" in e:
            self.line = e["l"]
        return self.construct(fn, t, kind, args, e)

    def construct(self, fn, t, kind, args, e=None):
        h = self.lib.get("ctor:" + (t.x.get("name") or t.x.get("cpp") or t.k)) or self.lib.get("ctor:" + t.k)
        if h:
            r = h(self, fn, t, kind, args, e)
            if r is not None:
                self.libused.add(fn["q"])
                return r
        if kind in ("copyctor", "movector"):
            v = self.val(args[0])
            if kind == "movector" and isinstance(args[0], Loc):
                self.moved_from(args[0], v, t)
            return v
        if kind == "defctor":
            body = self.u.functions.get(fn["id"])
            zero = e is not None and bool(e.get("zero"))
            if body is not None and body.get("body") is not None and not body.get("trivial") and not self.opaque(t):
                return self.run_ctor(body, t, args, zero)
            if zero:
                return self.vinit(t)
            return self.dinit(t) if t.k in ("rec",) else self.vinit(t)
        body = self.u.functions.get(fn["id"])
        if body is not None:
            return self.run_ctor(body, t, args)
        raise Unsupported("constructor of %r (%s)" % (t, fn["q"]))

    def moved_from(self, loc, v, t):
        h = self.lib.get("moved")
        if h:
            h(self, loc, v, t)

    def run_ctor(self, f, t, args, zero=False):
        h = self.lib.get("alloc:" + t.x.get("name", ""))
        cell = self.new_cell(h(self, t) if h else self.vinit(t) if zero else self.dinit(t))
        fr = Frame(f, cell)
        self.bind(f, args, fr)
        self.enter(f)
        try:
            inited = set()
            for i in f.get("inits", ()):
                if "mem" in i:
                    r = self.u.records.get(t.key)
                    if r and any(x["name"] == i["mem"] and self.u.is_ref(x["t"]) for x in r["fields"]):
                        v = PtrV(False, self.as_loc(self.ev(i["x"], fr)))
                    else:
                        v = self.rv(i["x"], fr)
                    self.store(cell.f(i["mem"]), v)
                else:
                    hb = self.lib.get("baseinit")
                    if hb:
                        hb(self, f, t, i, cell, fr)
            if f.get("body") is not None:
                try:
                    self.ex(f["body"], fr)
                except Return:
                    pass
        finally:
            self.leave()
        return self.load(cell)

    def bind(self, f, args, fr):
        for p, a in zip(f["params"], args):
            if self.u.is_ref(p["t"]):
                fr.env[p["id"]] = self.as_loc(a)
            else:
                fr.env[p["id"]] = self.new_cell(self.val(a))

    def enter(self, f):
        self.depth += 1
        if self.depth > self.MAX_DEPTH:
            raise Unsupported("recursion too deep")
        self.fnstack.append(f)
        self.inlined.add(f["diag"])

    def leave(self):
        self.depth -= 1
        self.fnstack.pop()

    def e_call(self, e, fr):
        if "fn" not in e:
            callee = self.rv(e["callee"], fr)
            args = [self.ev(a, fr) for a in e["a"]]
            return self.call_value(callee, args, e)
        fn = e["fn"]
        obj = None
        if "obj" in e:
            obj = self.ev(e["obj"], fr)
            if e.get("arrow"):
                obj = self.deref(self.val(obj), e)
        args = [self.ev(a, fr) for a in e["a"]]
        if "l" in e:
            self.line = e["l"]
        return self.call(fn, obj, args, e)

    def call(self, fn, obj, args, e):
        q = fn["q"]
        # 1. contracts of the code under verification
        if self.contracts is not None:
            c = self.contracts.find(self, fn, obj, args)
            if c is not None:
                self.called_contracts.add(c.name)
                return c.apply(self, fn, obj, args)
        # 2. lambdas
        if obj is not None:
            o = self.load(obj) if isinstance(obj, Loc) else obj
            if isinstance(o, LamV):
                return self.call_lambda(o, fn, args)
        # 3. library models
        h = self.lib.get(q)
        if h:
            r = h(self, fn, obj, args, e)
            if r is not NotImplemented:
                self.libused.add(q)
                return r
        # 4. the repository's own code
        f = self.u.functions.get(fn["id"])
        if f is not None and f.get("body") is not None:
            return self.inline(f, obj, args)
        h = self.lib.get("*")
        if h:
            r = h(self, fn, obj, args, e)
            if r is not NotImplemented:
                self.libused.add(q)
                return r
        raise Unsupported("call to %s (line %s)" % (q, self.line))

    def inline(self, f, obj, args, env=None, this=None):
        fr = Frame(f, obj if obj is not None else this)
        if env:
            fr.env.update(env)
        fr.site = self.line
        self.bind(f, args, fr)
        self.enter(f)
        kn = len(self.st.kstack)
        try:
            self.ex(f["body"], fr)
            r = None
        except Return as x:
            r = x.v
        finally:
            self.leave()
            del self.st.kstack[kn:]
        return r

    def call_lambda(self, lam, fn, args):
        f = self.u.functions.get(fn["id"])
        if f is None or f.get("body") is None:
            raise Unsupported("lambda body of %s" % fn["q"])
        return self.inline(f, None, args, lam.env, lam.this)

    def call_value(self, callee, args, e):
        if isinstance(callee, FnV) and callee.fn is not None:
            return self.call(callee.fn, None, args, e)
        raise Unsupported("indirect call")

    # ---- statements -------------------------------------------------------------------------------------------------
    def ex(self, s, fr):
        if s is None:
            return
        m = getattr(self, "s_" + s["s"], None)
        if m is None:
            raise Unsupported("statement %s" % (s["s"] if s["s"] != "unsupported" else s.get("cls")))
        if "l" in s:
            self.line = s["l"]
        m(s, fr)

    def s_block(self, s, fr):
        fr.scopes.append([])
        try:
            for x in s["b"]:
                self.ex(x, fr)
        except PathEnd:
            fr.scopes.pop()
            raise
        except Unsupported:
            fr.scopes.pop()
            raise
        except (Return, Break, Continue, CppThrow):
            self.close_scope(fr)
            raise
        else:
            self.close_scope(fr)

    def close_scope(self, fr):
        sc = fr.scopes.pop()
        for loc, dtor in reversed(sc):
            if callable(dtor):
                dtor(self, loc)
                continue
            f = self.u.functions.get(dtor)
            if f is not None and f.get("body") is not None:
                self.inline(f, loc, [])

    def s_decl(self, s, fr):
        for v in s["d"]:
            self.decl(v, fr)

    def decl(self, v, fr):
        isref = self.u.is_ref(v["t"])
        t = self.u.ty(v["t"])
        if "init" in v and v["init"] is not None:
            h = self.lib.get("declinit:" + t.k)
            x = h(self, v, t, fr) if h else None
            if x is None:
                x = self.ev(v["init"], fr)
            if v.get("static") and not (h and t.k == "ilist") and not (self.u.is_const(v["t"]) and closed(self.val(x) if not isref else None)):
                # initialized by whichever call came first, and changed by others
                if isref:
                    raise Unsupported("static reference")
                x = self.fresh_value(t, v.get("name") or "static")
            if isref:
                fr.env[v["id"]] = self.as_loc(x)
            else:
                fr.env[v["id"]] = self.new_cell(self.val(x))
        else:
            fr.env[v["id"]] = self.new_cell(self.dinit(t))
        if not isref and t.k == "rec":
            rec = self.u.records.get(t.key)
            if rec and rec.get("dtor") and fr.scopes and self.u.functions.get(rec["dtor"]):
                fr.scopes[-1].append((fr.env[v["id"]], rec["dtor"]))
            elif fr.scopes and self.lib.get("dtor:" + t.x.get("name", "")):
                fr.scopes[-1].append((fr.env[v["id"]], self.lib["dtor:" + t.x["name"]]))
        if v.get("bindings"):
            h = self.lib.get("bindings")
            if not h:
                raise Unsupported("structured bindings")
            h(self, v, fr)

    def s_expr(self, s, fr):
        self.ev(s["x"], fr)

    def s_null(self, s, fr):
        pass

    def s_if(self, s, fr):
        fr.scopes.append([])
        if s.get("init"):
            self.ex(s["init"], fr)
        if s.get("cv"):
            self.decl(s["cv"], fr)
        if self.o.get("join") and not s.get("else") and id(s) not in self.nojoin and self.join(s, fr):
            fr.scopes.pop()
            return
        if self.decide(self.tobool(self.rv(s["c"], fr))):
            self.ex(s["then"], fr)
        elif s.get("else"):
            self.ex(s["else"], fr)
        fr.scopes.pop()

    def join(self, s, fr):
        """A conditional statement both outcomes of which lead to the same state: no need to tell them apart afterwards."""
        if not self.o["join"](self):
            return False
        self.sync()
        key = (id(s), self.st.hist, self.st.next_cell, tuple(str(k) for k in self.st.kstack), tuple(self.live_sig), bool(self.muted))
        r = self.joins.get(key)
        if r is None:
            ends = []
            limit = self.st.next_cell
            env0 = dict(fr.env)
            n0 = len(fr.scopes)
            fnst = list(self.fnstack)
            nobs = len(self.obs)

            def run():
                fr.env.clear()
                fr.env.update(env0)
                del fr.scopes[n0:]
                try:
                    if self.decide(self.tobool(self.rv(s["c"], fr))):
                        self.ex(s["then"], fr)
                    if not self.o["join"](self):
                        ends.append(None)
                        return
                    self.sync()
                    ends.append(({c: v for c, v in self.st.store.items() if c < limit}, dict(self.st.ghost)))
                except (Break, Continue, Return, CppThrow):
                    ends.append(None)
            self.explore(self.st, run, 60)
            fr.env.clear()
            fr.env.update(env0)
            del fr.scopes[n0:]
            self.fnstack[:] = fnst
            ok = len(ends) > 1 and None not in ends and all(self.same_state(ends[0], e) for e in ends[1:])
            r = self.joins[key] = ends[0] if ok else False
            if not ok:
                del self.obs[nobs:]
                self.nojoin.add(id(s))
        if r is False:
            return False
        self.st.store.update(r[0])
        self.st.ghost = dict(r[1])
        return True

    @staticmethod
    def same_state(a, b):
        def same(x, y):
            if x is y:
                return True
            if isinstance(x, z3.ExprRef):
                return isinstance(y, z3.ExprRef) and z3.simplify(x).eq(z3.simplify(y))
            if isinstance(x, RecV):
                return isinstance(y, RecV) and x.kind == y.kind and list(x.f) == list(y.f) and all(same(x.f[n], y.f[n]) for n in x.f)
            if isinstance(x, (tuple, list)):
                return type(x) is type(y) and len(x) == len(y) and all(same(p, q) for p, q in zip(x, y))
            return x == y if isinstance(x, (int, str, bool, type(None), Loc)) else False
        return a[0].keys() == b[0].keys() and all(same(v, b[0][c]) for c, v in a[0].items()) and a[1].keys() == b[1].keys() and all(same(v, b[1][n]) for n, v in a[1].items())

    def s_return(self, s, fr):
        if s.get("x") is None:
            raise Return(None)
        v = self.ev(s["x"], fr)
        if fr.fn is not None and "ret" in fr.fn and self.u.is_ref(fr.fn["ret"]):
            raise Return(v)
        raise Return(self.val(v))

    def s_break(self, s, fr):
        raise Break()

    def s_continue(self, s, fr):
        raise Continue()

    def s_try(self, s, fr):
        n = len(fr.scopes)
        try:
            self.ex(s["body"], fr)
        except CppThrow as x:
            del fr.scopes[n:]
            for h in s["h"]:
                if not h.get("var") and not h.get("t"):
                    return self.handler(h, x, fr)
                t = self.u.ty(h["t"])
                if self.catches(t, x):
                    return self.handler(h, x, fr)
            raise

    def catches(self, t, x):
        n1 = t.x.get("name")
        n2 = x.ty.x.get("name") if isinstance(x.ty, Ty) else None
        if n1 == n2:
            return True
        h = self.lib.get("catches")
        return bool(h and h(self, n1, n2))

    def handler(self, h, x, fr):
        if h.get("var"):
            v = h["var"]
            fr.env[v["id"] if isinstance(v, dict) else v] = self.new_cell(x.v)
        old = self.st.ghost.get("current_exc")
        self.st.ghost["current_exc"] = (x.v, x.ty)
        self.ex(h["body"], fr)
        self.st.ghost["current_exc"] = old

    def s_switch(self, s, fr):
        if s.get("init"):
            self.ex(s["init"], fr)
        if s.get("cv"):
            self.decl(s["cv"], fr)
        v = self.rv(s["c"], fr)
        items = []
        b = s["body"]

        def flatten(x):
            # case labels nest
            if x["s"] == "case":
                items.append(("case", x["v"]))
                flatten(x["b"])
            elif x["s"] == "default":
                items.append(("default", None))
                flatten(x["b"])
            else:
                items.append(("stmt", x))
        for x in (b["b"] if b["s"] == "block" else [b]):
            flatten(x)
        start = None
        for i, (k, x) in enumerate(items):
            if k == "case":
                c = self.rv(x, fr)
                if self.decide(v == c):
                    start = i
                    break
        if start is None:
            for i, (k, x) in enumerate(items):
                if k == "default":
                    start = i
        if start is None:
            return
        fr.scopes.append([])
        try:
            for k, x in items[start:]:
                if k == "stmt":
                    self.ex(x, fr)
        except Break:
            pass
        fr.scopes.pop()

    # ---- loops ------------------------------------------------------------------------------------------------------
    def s_for(self, s, fr):
        if s.get("init"):
            self.ex(s["init"], fr)
        self.loop(s, fr, lambda: self.tobool(self.rv(s["c"], fr)) if s.get("c") else TRUE,
                  lambda: self.ex(s["body"], fr), lambda: self.ev(s["inc"], fr) if s.get("inc") else None)

    def s_rfor(self, s, fr):
        if s.get("init"):
            self.ex(s["init"], fr)
        self.ex(s["range"], fr)
        self.ex(s["begin"], fr)
        self.ex(s["end"], fr)

        def body():
            self.ex(s["var"], fr)
            self.ex(s["body"], fr)
        self.loop(s, fr, lambda: self.tobool(self.rv(s["c"], fr)), body, lambda: self.ev(s["inc"], fr))

    def s_while(self, s, fr):
        def cond():
            if s.get("cv"):
                self.decl(s["cv"], fr)
            return self.tobool(self.rv(s["c"], fr))
        self.loop(s, fr, cond, lambda: self.ex(s["body"], fr), lambda: None)

    def s_do(self, s, fr):
        first = [True]

        # body once, then a while loop
        try:
            self.ex(s["body"], fr)
        except Continue:
            pass
        except Break:
            return
        self.loop(s, fr, lambda: self.tobool(self.rv(s["c"], fr)), lambda: self.ex(s["body"], fr), lambda: None)

    def one_iteration(self, body, inc, fr):
        n = len(fr.scopes)
        try:
            body()
        except Continue:
            del fr.scopes[n:]
        inc()
        self.sync()

    def sync(self):
        h = self.o.get("sync")
        if h:
            h(self)

    def loop(self, s, fr, cond, body, inc):
        key = (id(s), self.fnstack[-1]["diag"] if self.fnstack else "")
        kidx = len(self.st.kstack)
        self.sync()
        # concrete loops
        for it in range(65):
            env0 = dict(fr.env)
            store0 = dict(self.st.store)
            nd = self.ndec
            c = cond()
            c = z3.simplify(c)
            if not self.o["unroll"] and self.ndec != nd:
                # the condition branches on symbolic values: evaluate it again from the invariant state
                fr.env.clear()
                fr.env.update(env0)
                self.st.store = store0
                break
            if z3.is_false(c):
                return
            if not z3.is_true(c):
                if not self.o["unroll"]:
                    fr.env.clear()
                    fr.env.update(env0)
                    self.st.store = store0
                break
            if self.o["unroll"] and it > self.o["unroll"] + 8:
                raise PathEnd()
            try:
                self.one_iteration(body, inc, fr)
            except Break:
                return
        else:
            raise Unsupported("loop with too many concrete iterations")
        if self.o["unroll"]:
            n = 0
            while True:
                if not self.decide(c):
                    return
                n += 1
                if n > self.o["unroll"]:
                    raise PathEnd()
                try:
                    self.one_iteration(body, inc, fr)
                except Break:
                    return
                c = z3.simplify(cond())
        self.invariant_loop(s, key, fr, cond, body, inc, kidx)

    def cond_pure(self, c):
        return c

    def havoc_value(self, v, p):
        """Fresh leaves, same shape."""
        if v is None or isinstance(v, (ProxyV, LamV, FnV, Uninit)):
            return v
        if isinstance(v, StrP):
            return self.fresh(Str, p)
        ls = leaves(v)
        new = [self.fresh(l.sort(), p) for l in ls]
        for l, n in zip(ls, new):
            if n.sort() == J:
                for f in T.json_facts(n):
                    self.assume(f)
        return rebuild(v, iter(new))

    def candidates(self, M, v0s, kstack, bounds=()):
        """[(name, fn(values, k) -> Bool)] over the values of the locations in M."""
        out = []
        roles = self.o["fold_roles"](self, kstack) if self.o.get("fold_roles") else []
        for i, loc in enumerate(M):
            v0 = v0s[i]
            if v0 is None or isinstance(v0, (ProxyV, LamV, FnV, Uninit)):
                continue
            l0 = leaves(v0)
            for j, t0 in enumerate(l0):
                def get(vals, i=i, j=j):
                    l = leaves(vals[i])
                    return l[j] if j < len(l) else None
                nm = "%d.%d" % (i, j)
                out.append((nm + "=old", lambda vals, k, g=get, t0=t0: g(vals) == t0))
                if t0.sort() == z3.IntSort():
                    out.append((nm + "=old+k", lambda vals, k, g=get, t0=t0: g(vals) == t0 + k))
                    out.append((nm + "=old-k", lambda vals, k, g=get, t0=t0: g(vals) == t0 - k))
                    out.append((nm + ">=0", lambda vals, k, g=get: g(vals) >= 0))
                    if isinstance(v0, IterV):
                        n = self.iter_limit(v0)
                        if n is not None:
                            out.append((nm + "<=end", lambda vals, k, g=get, n=n: g(vals) <= n))
                for rn, term in roles:
                    try:
                        tk = term(IntVal(0))
                    except Unsupported:
                        continue
                    if tk.sort() == t0.sort():
                        out.append((nm + "=" + rn, lambda vals, k, g=get, term=term: g(vals) == term(k)))
                    if tk.sort() == z3.BoolSort() and rn.startswith("!"):
                        pass
            for j, t0 in enumerate(l0):
                if t0.sort() == z3.IntSort():
                    for nb, b in enumerate(bounds):
                        out.append(("%d.%d<=%s" % (i, j, "bound %d" % nb if self.o.get("quick") else b), lambda vals, k, i=i, j=j, b=b: leaves(vals[i])[j] <= b))
        extra = self.o.get("extra_candidates")
        if extra:
            out += extra(self, M, v0s, kstack)
        return out

    def loop_bounds(self, cond, fr, env0):
        """Integer terms the loop's condition compares with (in the state before the loop)."""
        found = {}

        def collect(c):
            if z3.is_int(c) and not z3.is_int_value(c) and c.num_args() < 4 and len(str(c)) < 300:
                found.setdefault(c.sexpr(), c)
            for x in c.children():
                if z3.is_bool(c):
                    collect(x)

        def run():
            fr.env.clear()
            fr.env.update(env0)
            c = cond()
            if isinstance(c, z3.ExprRef):
                collect(c)
        try:
            self.explore(self.st, run, 20)
        except Exception:
            pass
        return list(found.values())[:4]

    @staticmethod
    def guarded(f):
        def g(vals, k):
            try:
                r = f(vals, k)
            except (z3.Z3Exception, AttributeError, KeyError, Unsupported):
                return FALSE
            return r if isinstance(r, z3.ExprRef) else FALSE
        return g

    def iter_limit(self, it):
        h = self.lib.get("iterlimit:" + it.kind)
        return h(self, it) if h else None

    def invariant_loop(self, s, key, fr, cond, body, inc, kidx):
        st0 = self.st
        ckey = (key, st0.hist, st0.next_cell, tuple(str(k) for k in st0.kstack), tuple(self.live_sig))
        env0 = dict(fr.env)
        scopes0 = len(fr.scopes)
        k = z3.Int("k%d!%d" % (kidx, st0.next_sym))
        info = self.houdini_cache.get(ckey)
        if info is None:
            # whatever was found on another way to this loop is tried first; the obligations below decide whether it is right
            skey = (key, getattr(fr, "site", None), ckey[3], self.discovering()) if self.o.get("quick") else None
            sig, info = self.shared.get(skey, (None, None))
            if info is not None:
                # a loop in a helper function may have others wherever the helper is called from
                info = self.adapt(info, cond, fr, env0) if len(self.fnstack) < 2 else None
            if info is None or self.live_sig and sig != tuple(self.live_sig) or not self.suits(info, st0):
                info = self.infer(s, key, fr, cond, body, inc, k, env0, scopes0, info)
            if skey:
                at = {l.cell: i for i, l in env0.items() if isinstance(l, Loc) and not l.path}
                self.shared[skey] = (tuple(self.live_sig), ([(at.get(l.cell), l) for l in info[0]],) + info[1:])
            self.houdini_cache[ckey] = info
            self.loops_seen.add(key)
        M, names, bounds, exits = info
        v0s = [self.load(l) for l in M]
        limit = st0.next_cell
        st0.next_sym += 1
        posts = [(n, self.guarded(f)) for n, f in self.o["exit_candidates"](self, M, v0s, st0.kstack) if n in exits] if exits is not None else None

        def conclude():
            vals = [self.load(l) for l in M]
            for n, f in posts:
                self.oblige("INV", "%s holds after the loop" % n, f(vals, None), assume_after=False)
            raise PathEnd()
        cands = [(n, self.guarded(f)) for n, f in self.candidates(M, v0s, st0.kstack, bounds) if n in names]
        if not self.muted and not self.replaying():
            self.loopinfo[ckey] = (self.fnstack[-1]["diag"] if self.fnstack else "", s.get("l"), [c[0] for c in cands], [str(l) for l in M])
        for n, f in cands:
            self.oblige("INV", "loop invariant %s holds initially" % n, f(v0s, IntVal(0)), assume_after=False)
        if self.muted and (posts is not None or not self.has_break(s.get("body"))):
            # nothing is reported on this run; an arbitrary iteration tells nothing about what follows
            choice = 1 if posts is None else 2
        else:
            choice = self.choose(2 if posts is None else 3)
        if choice == 2:
            # whichever way the loop was left
            for l, v0 in zip(M, v0s):
                self.store(l, self.havoc_value(v0, "h%s" % l.cell))
            vals = [self.load(l) for l in M]
            for n, f in posts:
                self.assume(f(vals, None))
            fr.env.clear()
            fr.env.update(env0)
            self.after_loop = True
            return
        # arbitrary iteration state
        vals = self.havoc(M, v0s, k, cands)
        fr.env.clear()
        fr.env.update(env0)
        st0 = self.st
        self.after_loop = True
        if choice == 0:
            if self.o.get("touch"):
                for t in self.o["touch"](self, st0.kstack, k + 1):
                    self.touch(t)
            st0.kstack.append(k)
            outer, self.written = self.written, []
            try:
                c = cond()
                if not self.decide(c):
                    raise PathEnd()
                self.one_iteration(body, inc, fr)
                if not self.muted:
                    self.covered(M, limit)
            except Break:
                self.st.kstack.pop()
                if posts is not None:
                    if not self.muted:
                        self.covered(M, limit)
                    self.sync()
                    conclude()
                return
            except CppThrow:
                self.st.ghost.setdefault("throw_kstack", list(self.st.kstack))
                raise
            finally:
                if outer is not None:
                    outer += self.written or []
                self.written = outer
            # the invariants hold again after the iteration
            vals = [self.load(l) for l in M]
            for n, f in cands:
                self.oblige("INV", "loop invariant %s is preserved" % n, f(vals, k + 1), assume_after=False)
            raise PathEnd()
        if self.o.get("touch"):
            for t in self.o["touch"](self, st0.kstack, k + 1):          # a condition may have more than one reason to end the loop
                self.touch(t)
        c = cond()
        if self.decide(c):
            raise PathEnd()
        if posts is not None:
            conclude()

    def covered(self, M, limit):
        """The modified locations found for a loop really are all of them."""
        for l in self.written:
            if l.cell < limit and not any(self.is_prefix(m, l) for m in M):
                raise Unsupported("a loop writes a location which was not noticed")

    def discovering(self):
        return any(x == "discovery" for _, x in self.live_sig)

    def adapt(self, info, cond, fr, env0):
        """What was found for a loop in terms of another way to it."""
        M = []
        for i, l in info[0]:
            if i is not None:
                if i not in env0:
                    return None
                l = Loc(env0[i].cell, l.path)
            M.append(l)
        bounds = self.loop_bounds(cond, fr, env0)
        fr.env.clear()
        fr.env.update(env0)
        return (M, info[1], bounds, info[3])

    def suits(self, info, st):
        """Whether what was found for a loop may be right on another way to it."""
        M, names, bounds, exits = info
        if any(l.cell not in st.store for l in M):
            return False
        v0s = [self.load(l) for l in M]
        st.next_sym += 1
        cands = [(n, self.guarded(f)) for n, f in self.candidates(M, v0s, st.kstack, bounds)]
        st.next_sym -= 1
        if not names <= {n for n, _ in cands}:
            return False
        for n, f in cands:
            if n in names:
                g = z3.simplify(f(v0s, IntVal(0)))
                if not z3.is_true(g) and st.ctx.check(Not(g), timeout=3000) != z3.unsat:
                    return False
        return True

    def havoc(self, M, v0s, k, cands):
        self.assume(k >= 0)
        vals = []
        w = self.written
        for l, v0 in zip(M, v0s):
            nv = self.havoc_value(v0, "h%s" % l.cell)
            self.store(l, nv)
            vals.append(nv)
        for n, f in cands:
            self.assume(f(vals, k))
        return vals

    def infer(self, s, key, fr, cond, body, inc, k, env0, scopes0, hint=None):
        """Modified locations and the inductive subset of the candidate invariants."""
        self.muted += 1
        saved_written = self.written
        limit = self.st.next_cell
        base = self.st
        try:
            M = list(hint[0]) if hint else []
            # discovery
            self.live_sig.append((str(key), "discovery"))
            for _ in range(8):
                found = []

                def run():
                    fr.env.clear()
                    fr.env.update(env0)
                    del fr.scopes[scopes0:]
                    v0s = [self.load(l) for l in M]
                    self.havoc(M, v0s, k, [])
                    self.st.kstack.append(k)
                    self.written = found
                    try:
                        if self.decide(cond()):
                            self.one_iteration(body, inc, fr)
                    except (Break, Return, CppThrow):
                        pass
                    finally:
                        self.written = None
                self.explore(base, run, 400)
                new = []
                for l in found:
                    if l.cell < limit and not any(l == m or self.is_prefix(m, l) for m in M + new):
                        new = [m for m in new if not self.is_prefix(l, m)] + [l]
                if not new:
                    break
                M = [m for m in M if not any(self.is_prefix(l, m) for l in new)] + new
            else:
                raise Unsupported("modified locations of a loop do not converge")
            self.live_sig.pop()
            self.written = None
            if self.discovering() and self.o.get("quick"):
                # an enclosing loop only wants to know what is written
                fr.env.clear()
                fr.env.update(env0)
                return M, set(), {}, set() if self.has_break(s.get("body")) else None
            v0s = [self.load(l) for l in M]
            self.st.next_sym += 1
            kst = list(self.st.kstack)
            bounds = self.loop_bounds(cond, fr, env0)
            cands = [(n, self.guarded(f)) for n, f in self.candidates(M, v0s, kst, bounds) if not hint or n in hint[1]]
            self.st.next_sym -= 1
            # initiation
            live = []
            for n, f in cands:
                g = z3.simplify(f(v0s, IntVal(0)))
                if z3.is_true(g) or base.ctx.check(Not(g), timeout=3000) == z3.unsat:
                    live.append((n, f))
            # consecution
            for _ in range(60):
                failed = set()
                self.live_sig.append((str(key), frozenset(n for n, _ in live)))

                def run():
                    fr.env.clear()
                    fr.env.update(env0)
                    del fr.scopes[scopes0:]
                    self.st.next_sym += 1
                    self.havoc(M, v0s, k, live)
                    self.st.kstack.append(k)
                    try:
                        if not self.decide(cond()):
                            return
                        self.one_iteration(body, inc, fr)
                    except (Break, Return, CppThrow):
                        return
                    vals = [self.load(l) for l in M]
                    for n, f in live:
                        if n in failed:
                            continue
                        g = z3.simplify(f(vals, k + 1))
                        if not z3.is_true(g) and self.st.ctx.check(Not(g), timeout=5000) != z3.unsat:
                            failed.add(n)
                try:
                    self.explore(base, run, 400)
                finally:
                    self.live_sig.pop()
                if not failed:
                    break
                live = [c for c in live if c[0] not in failed]
            fr.env.clear()
            fr.env.update(env0)
            exits = None
            if self.o.get("exit_candidates") and self.has_break(s.get("body")):
                posts = [(n, self.guarded(f)) for n, f in self.o["exit_candidates"](self, M, v0s, kst)]
                bad = set()

                def run():
                    fr.env.clear()
                    fr.env.update(env0)
                    del fr.scopes[scopes0:]
                    self.st.next_sym += 1
                    self.havoc(M, v0s, k, live)
                    for t in self.o["touch"](self, self.st.kstack, k + 1) if self.o.get("touch") else ():
                        self.touch(t)
                    if self.decide(cond()):
                        self.st.kstack.append(k)
                        try:
                            self.one_iteration(body, inc, fr)
                            return
                        except (Return, CppThrow):
                            return
                        except Break:
                            self.sync()
                    vals = [self.load(l) for l in M]
                    for n, f in posts:
                        if n not in bad:
                            g = z3.simplify(f(vals, None))
                            if not z3.is_true(g) and self.st.ctx.check(Not(g), timeout=5000) != z3.unsat:
                                bad.add(n)
                self.explore(base, run, 400)
                fr.env.clear()
                fr.env.update(env0)
                if len(bad) < len(posts):
                    exits = {n for n, _ in posts} - bad
            return M, {n for n, _ in live}, bounds, exits
        finally:
            self.muted -= 1
            self.written = saved_written
            if self.written is not None:
                # an enclosing discovery run sees what this loop writes
                self.written += [l for l in M]

    def has_break(self, x):
        """Whether a break of the loop with the body x is in it."""
        if isinstance(x, list):
            return any(self.has_break(y) for y in x)
        if not isinstance(x, dict):
            return False
        if x.get("s") == "break":
            return True
        if x.get("s") in ("for", "while", "do", "switch", "rangefor", "forrange") or x.get("e") == "lambda":
            return False
        return any(self.has_break(y) for y in x.values() if isinstance(y, (dict, list)))

    @staticmethod
    def is_prefix(a, b):
        return a.cell == b.cell and len(a.path) <= len(b.path) and all(steq(x, y) for x, y in zip(a.path, b.path))
