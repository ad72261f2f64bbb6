"""Symbolic values, sorts and the ground theory used by the verifier (z3, quantifier free)."""
import z3
from z3 import And, Or, Not, If, Implies, IntVal, BoolVal, Int, Bool, Const, Function, IntSort, BoolSort, DeclareSort

z3.set_param("model.completion", True)
TRUE, FALSE = BoolVal(True), BoolVal(False)

Val = DeclareSort("Val")        # boxed values of opaque types / container elements
Str = DeclareSort("Str")        # contents of strings (any bytes, embedded NULs allowed)
F64 = DeclareSort("F64")
F32 = DeclareSort("F32")
SeqS = DeclareSort("SeqS")      # std::vector, std::list, std::deque
SetS = DeclareSort("SetS")
MSetS = DeclareSort("MSetS")
MapS = DeclareSort("MapS")
MMapS = DeclareSort("MMapS")
CONT_SORT = {"seq": SeqS, "flist": SeqS, "set": SetS, "mset": MSetS, "map": MapS, "mmap": MMapS}

# JSON values: arrays and objects are snoc lists
_J = z3.Datatype("J"); _JS = z3.Datatype("JSeq"); _MS = z3.Datatype("MSeq")
_J.declare("jnull"); _J.declare("jbool", ("bval", BoolSort())); _J.declare("jint", ("ival", IntSort()))
_J.declare("jdbl", ("dval", F64)); _J.declare("jstr", ("sval", Str))
_J.declare("jarr", ("aval", _JS)); _J.declare("jobj", ("oval", _MS))
_JS.declare("jnil"); _JS.declare("jsnoc", ("jinit", _JS), ("jlast", _J))
_MS.declare("mnil"); _MS.declare("msnoc", ("minit", _MS), ("mkey", Str), ("mlast", _J))
J, JSeq, MSeq = z3.CreateDatatypes(_J, _JS, _MS)

# error logs (what was recorded / in which context)
_LK = z3.Datatype("LogK"); _LK.declare("lk_base", ("kb", IntSort()))
_LK.declare("lk_snoc", ("kprev", _LK), ("kkind", IntSort()), ("kexp", IntSort()), ("kact", IntSort()))
LogK = _LK.create()
CS = z3.Datatype("CS"); CS.declare("csnull"); CS.declare("cs", ("csv", Str)); CS = CS.create()
_LC = z3.Datatype("LogC"); _LC.declare("lc_base", ("cb", IntSort()))
_LC.declare("lc_snoc", ("cprev", _LC), ("crec", CS), ("cmem", CS), ("cidx", IntSort()))
LogC = _LC.create()

# library functions over those sorts
slen = Function("slen", Str, IntSort())
cstr = Function("cstr", Str, Str)                      # content up to the first NUL
sprefix = Function("sprefix", Str, IntSort(), Str)
scat = Function("scat", Str, Str, Str)
jlen = Function("jlen", JSeq, IntSort())
jat = Function("jat", JSeq, IntSort(), J)
mlen = Function("mlen", MSeq, IntSort())
mname = Function("mname", MSeq, IntSort(), Str)
mval = Function("mval", MSeq, IntSort(), J)
mfind = Function("mfind", MSeq, Str, IntSort())
mset = Function("mset", MSeq, IntSort(), J, MSeq)      # object with the value of member i replaced
f64real = Function("f64real", F64, z3.RealSort())
f64nan = Function("f64nan", F64, BoolSort())
f64inf = Function("f64inf", F64, IntSort())            # -1, 0, 1
f64_of_int = Function("f64_of_int", IntSort(), F64)
f32_of_f64 = Function("f32_of_f64", F64, F32)
f64_of_f32 = Function("f64_of_f32", F32, F64)
f32_of_int = Function("f32_of_int", IntSort(), F32)

INT_MAX = {(b, s): ((1 << (b - (1 if s else 0))) - 1) for b in (8, 16, 32, 64, 128) for s in (True, False)}
INT_MIN = {(b, s): (-(1 << (b - 1)) if s else 0) for b in (8, 16, 32, 64, 128) for s in (True, False)}

# z3's Python API asks for the error code after every call; the calls below cannot fail on the terms they get here
for _f in "inc_ref dec_ref get_ast_id get_ast_kind get_sort get_sort_kind is_eq_ast get_app_decl get_decl_kind get_decl_name get_symbol_kind get_app_num_args get_app_arg is_app solver_inc_ref".split():
    _x = getattr(z3.z3core, "Z3_" + _f, None)
    if _x and _x.__defaults__:
        _x.__defaults__[-1].Check = lambda ctx: None



class Unsupported(Exception):
    """The code uses something outside the verifier's reach: no verdict."""


class RecV:
    __slots__ = ("kind", "f", "ty")

    def __init__(self, kind, f, ty=None):
        self.kind, self.f, self.ty = kind, dict(f), ty

    def with_(self, name, v):
        g = dict(self.f)
        g[name] = v
        return RecV(self.kind, g, self.ty)

    def __repr__(self):
        return "%s{%s}" % (self.kind, ", ".join("%s=%r" % x for x in self.f.items()))


class CharP:
    """A char pointer: `s` is the content of the buffer it points to the start of (a NUL follows)."""
    __slots__ = ("null", "s", "static", "pieces")

    def __init__(self, null, s, static=False):
        self.null, self.s, self.static = null, s, static

    def __repr__(self):
        return "CharP(%s,%s,%s)" % (self.null, self.s, "static" if self.static else "dyn")


class PtrV:
    __slots__ = ("null", "loc")

    def __init__(self, null, loc):
        self.null, self.loc = null, loc

    def __repr__(self):
        return "Ptr(%s,%s)" % (self.null, self.loc)


class IterV:
    """Iterator/pointer into a container: position `pos` (an Int term)."""
    __slots__ = ("kind", "loc", "pos", "ty")

    def __init__(self, kind, loc, pos, ty=None):
        self.kind, self.loc, self.pos, self.ty = kind, loc, pos, ty

    def __repr__(self):
        return "Iter(%s,%s,%s)" % (self.kind, self.loc, self.pos)


class ProxyV:
    __slots__ = ("kind", "loc")

    def __init__(self, kind, loc):
        self.kind, self.loc = kind, loc

    def __repr__(self):
        return "Proxy(%s,%s)" % (self.kind, self.loc)


class LamV:
    __slots__ = ("rec", "env", "this", "ops")

    def __init__(self, rec, env, this, ops):
        self.rec, self.env, self.this, self.ops = rec, env, this, ops


class FnV:
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn


class Uninit:
    def __repr__(self):
        return "UNINIT"


UNINIT = Uninit()


class StrP:
    """A string built from pieces (python str literals and Str terms), used where text is assembled."""
    __slots__ = ("p",)

    def __init__(self, pieces):
        out = []
        for x in pieces:
            if isinstance(x, str) and out and isinstance(out[-1], str):
                out[-1] += x
            elif not (isinstance(x, str) and x == ""):
                out.append(x)
        self.p = tuple(out)

    def __repr__(self):
        return "StrP" + repr(self.p)


_lits = {}
_byname = {}


def lit(text):
    """The Str constant for a literal; distinctness facts are added by lit_facts()."""
    if text not in _lits:
        _lits[text] = c = Const("lit_%d_%s" % (len(_lits), "".join(c if c.isalnum() else "_" for c in text)[:20]), Str)
        _byname[c.decl().name()] = text
    return _lits[text]


_litinfo = {}
_litsets = {}


def lit_facts(only=None):
    """Distinctness, lengths and C string contents of the literals (those occurring in the query)."""
    ids = {}
    for c in (_lits.values() if only is None else only):
        ids[c.get_id()] = c
    key = frozenset(ids)
    out = _litsets.get(key)
    if out is None:
        out = [z3.Distinct(*ids.values())] if len(ids) > 1 else []
        for i, c in ids.items():
            if i not in _litinfo:
                t = _byname[c.decl().name()]
                _litinfo[i] = [slen(c) == len(t.encode("utf-8", "surrogatepass"))] + ([cstr(c) == c] if "\0" not in t else [])
            out += _litinfo[i]
        # the literals live in _lits as long as the process, their ids are unique
        out = _litsets[key] = [z3.And(*out)] if len(out) > 1 else out
    return out


def lit_of(term):
    return _byname.get(term.decl().name()) if z3.is_app(term) and term.num_args() == 0 else None


def leaves(v):
    if isinstance(v, z3.ExprRef):
        return [v]
    if isinstance(v, RecV):
        out = []
        for x in v.f.values():
            out += leaves(x)
        return out
    if isinstance(v, CharP):
        return [v.null, v.s]
    if isinstance(v, IterV):
        return [v.pos]
    if isinstance(v, PtrV):
        return [v.null] if isinstance(v.null, z3.ExprRef) else []
    if isinstance(v, StrP):
        return [strterm(v)]
    if v is None or isinstance(v, (Uninit, ProxyV, LamV, FnV)):
        return []
    raise Unsupported("leaves of %r" % (v,))


def rebuild(v, it):
    """A value of the same shape as v with its leaves taken from the iterator."""
    if isinstance(v, z3.ExprRef):
        return next(it)
    if isinstance(v, RecV):
        return RecV(v.kind, {k: rebuild(x, it) for k, x in v.f.items()}, v.ty)
    if isinstance(v, CharP):
        n = next(it)
        return CharP(n, next(it), v.static)
    if isinstance(v, IterV):
        return IterV(v.kind, v.loc, next(it), v.ty)
    if isinstance(v, PtrV):
        return PtrV(next(it), v.loc) if isinstance(v.null, z3.ExprRef) else v
    if isinstance(v, StrP):
        return next(it)
    return v


def strterm(v):
    if isinstance(v, StrP):
        if not v.p:
            return lit("")
        ts = [lit(x) if isinstance(x, str) else x for x in v.p]
        r = ts[0]
        for t in ts[1:]:
            r = scat(r, t)
        return r
    return v


def cs_of(cp):
    """The CS term of a const char* used as a name."""
    if isinstance(cp, PtrV):
        return CS.csnull
    c = cstr(cp.s) if lit_of(cp.s) is None or "\0" in lit_of(cp.s) else cp.s
    if z3.is_true(cp.null):
        return CS.csnull
    if z3.is_false(cp.null):
        return CS.cs(c)
    return If(cp.null, CS.csnull, CS.cs(c))


def as_bool(x):
    if isinstance(x, bool):
        return BoolVal(x)
    return x


def eqv(a, b):
    """Semantic equality of two values of the same C++ type."""
    if isinstance(a, StrP) or isinstance(b, StrP):
        if isinstance(a, StrP) and isinstance(b, StrP) and len(a.p) == len(b.p) and all(
                (x == y) if isinstance(x, str) or isinstance(y, str) else x.eq(y) for x, y in zip(a.p, b.p)):
            return TRUE
        return strterm(a) == strterm(b)
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        if a.sort() != b.sort():
            raise Unsupported("comparing %s with %s" % (a.sort(), b.sort()))
        return a == b
    if isinstance(a, RecV) and isinstance(b, RecV):
        if a.kind in ("opt", "sptr", "uptr", "wptr"):
            return And(a.f["has"] == b.f["has"], Implies(a.f["has"], And(*[eqv(a.f[k], b.f[k]) for k in a.f if k != "has"])))
        if a.kind == "strview":
            return And(a.f["null"] == b.f["null"], Implies(Not(a.f["null"]), a.f["s"] == b.f["s"]))
        if a.kind == "variant":
            c = [a.f["vl"] == b.f["vl"]]
            c.append(Implies(Not(a.f["vl"]), a.f["idx"] == b.f["idx"]))
            for k in a.f:
                if k not in ("vl", "idx"):
                    c.append(Implies(And(Not(a.f["vl"]), a.f["idx"] == int(k)), eqv(a.f[k], b.f[k])))
            return And(*c)
        return And(*([eqv(a.f[k], b.f[k]) for k in a.f] or [TRUE]))
    if isinstance(a, CharP) and isinstance(b, CharP):
        return And(a.null == b.null, Implies(Not(a.null), a.s == b.s))
    if isinstance(a, CharP) and isinstance(b, PtrV):
        return a.null if z3.is_true(as_bool(b.null)) else FALSE
    if isinstance(b, CharP) and isinstance(a, PtrV):
        return eqv(b, a)
    if isinstance(a, IterV) and isinstance(b, IterV):
        return a.pos == b.pos
    if isinstance(a, PtrV) and isinstance(b, PtrV):
        na, nb = as_bool(a.null), as_bool(b.null)
        same = a.loc == b.loc
        return And(na == nb, Or(na, BoolVal(same)))
    if a is b:
        return TRUE
    if isinstance(a, Uninit) or isinstance(b, Uninit):
        return FALSE
    raise Unsupported("equality of %r and %r" % (a, b))


def itev(c, a, b):
    if a is b:
        return a
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    la, lb = leaves(a), leaves(b)
    if len(la) != len(lb):
        raise Unsupported("ite of different shapes")
    return rebuild(a, iter([If(c, x, y) if not x.eq(y) else x for x, y in zip(la, lb)]))
