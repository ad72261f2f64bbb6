"""Assumed contracts (models) of the C++ standard library as used by the code under verification."""
import z3
from z3 import And, Or, Not, If, Implies, IntVal, BoolVal
from .sym import *
from . import theory as T
from .theory import EMPTY, SIZE, AT, s_len, s_cstr, s_prefix, s_cat
from .engine import Loc, CppThrow, Frame, Break, Continue, PathEnd, closed
from .ir import Ty

LIB = {}


def lib(*names):
    def deco(f):
        for n in names:
            LIB[n] = f
        return f
    return deco


def objty(en, e):
    t = en.u.ty(e["obj"]["t"])
    if t.k == "ptr":
        t = t.a[0]
    return t


def contval(en, obj):
    return en.val(obj)


CONT_KINDS = ("seq", "flist", "set", "mset", "map", "mmap")


def pos_of(en, it):
    return it.pos


def simp(x):
    return z3.simplify(x)


# ---- conversions between char pointers, strings and views -----------------------------------------------------------
def str_of(en, v):
    """The content (Str term) of a std::string, string_view or C string value."""
    v = en.val(v)
    if isinstance(v, CharP):
        return s_cstr(v.s)
    if isinstance(v, StrP):
        return strterm(v)
    if isinstance(v, RecV) and v.kind == "strview":
        return v.f["s"]
    if isinstance(v, z3.ExprRef) and v.sort() == Str:
        return v
    if isinstance(v, z3.ExprRef) and v.sort() == z3.IntSort():
        c = simp(v)
        if z3.is_int_value(c) and 0 < c.as_long() < 128:
            return lit(chr(c.as_long()))
        return z3.Function("char2str", z3.IntSort(), Str)(v)
    if isinstance(v, RecV) and v.kind == "sref":
        return s_prefix(v.f["p"].s, v.f["len"])
    raise Unsupported("string content of %r" % (v,))


def mkview(s, null=FALSE):
    return RecV("strview", {"null": null, "s": s})


@lib("ctor:str")
def _(en, fn, t, kind, args, e):
    if kind in ("copyctor", "movector"):
        v = en.val(args[0])
        if kind == "movector" and isinstance(args[0], Loc):
            pass
        return v
    if kind == "defctor" or not args:
        return lit("")
    a = [en.val(x) for x in args]
    if isinstance(a[-1], RecV) and a[-1].kind == "alloc":
        a = a[:-1]
    if not a:
        return lit("")
    if isinstance(a[0], CharP):
        if not z3.is_false(a[0].null):
            en.oblige("J03", "std::string is not constructed from a null pointer", Not(a[0].null))
        if len(a) == 1:
            return s_cstr(a[0].s)
        if len(a) == 2:
            n = a[1]
            if isinstance(n, CharP):
                raise Unsupported("string from char range")
            en.oblige("J03", "string length is within the buffer", And(n >= 0, n <= s_len(a[0].s) + 1))
            return s_prefix(a[0].s, n)
    if isinstance(a[0], RecV) and a[0].kind == "strview":
        return a[0].f["s"]
    if isinstance(a[0], z3.ExprRef) and a[0].sort() == Str and len(a) == 1:
        return a[0]
    if isinstance(a[0], StrP) and len(a) == 1:
        return a[0]
    if len(a) == 2 and isinstance(a[1], z3.ExprRef) and a[1].sort() == z3.IntSort():
        n = simp(a[0])
        if z3.is_int_value(n) and n.as_long() <= 64:
            return s_cat(*[str_of(en, a[1])] * n.as_long()) if n.as_long() else lit("")
        return en.fresh(Str, "filled")
    raise Unsupported("std::string constructor")


@lib("ctor:strview")
def _(en, fn, t, kind, args, e):
    if kind in ("copyctor", "movector"):
        return en.val(args[0])
    if not args:
        return RecV("strview", {"null": TRUE, "s": lit("")}, t)
    a = [en.val(x) for x in args]
    if isinstance(a[0], CharP):
        if len(a) == 1:
            if not z3.is_false(a[0].null):
                en.oblige("J03", "std::string_view is not constructed from a null pointer", Not(a[0].null))
            return RecV("strview", {"null": FALSE, "s": s_cstr(a[0].s)}, t)
        return RecV("strview", {"null": a[0].null, "s": s_prefix(a[0].s, a[1])}, t)
    return RecV("strview", {"null": FALSE, "s": str_of(en, a[0])}, t)


@lib("ctor:std::allocator")
def _(en, fn, t, kind, args, e):
    return RecV("alloc", {}, t)


def ctor_cont(en, fn, t, kind, args, e):
    if kind in ("copyctor", "movector"):
        v = en.val(args[0])
        if kind == "movector" and isinstance(args[0], Loc):
            en.store(args[0], EMPTY[t.k])
        return v
    if kind == "defctor" or not args:
        return EMPTY[t.k]
    return None


for _k in CONT_KINDS:
    LIB["ctor:" + _k] = ctor_cont


@lib("ctor:pair")
def _(en, fn, t, kind, args, e):
    if kind in ("copyctor", "movector") or (len(args) == 1):
        return en.val(args[0])
    if not args:
        return en.vinit(t)
    if len(args) == 2:
        return RecV("pair", {"first": conv(en, args[0], t.a[0]), "second": conv(en, args[1], t.a[1])}, t)
    return None


@lib("ctor:tuple")
def _(en, fn, t, kind, args, e):
    if kind in ("copyctor", "movector"):
        return en.val(args[0])
    if len(args) == len(t.a):
        return RecV("tuple", {str(i): conv(en, a, t.a[i]) for i, a in enumerate(args)}, t)
    if not args:
        return en.vinit(t)
    return None


def conv(en, a, ty):
    """Implicit conversion of an argument to an element type inside library code."""
    v = en.val(a)
    if ty.k == "str":
        return str_of(en, v)
    if ty.k == "strview" and not (isinstance(v, RecV) and v.kind == "strview"):
        return mkview(str_of(en, v))
    if ty.k == "bool" and isinstance(v, z3.ExprRef) and v.sort() == z3.IntSort():
        return v != 0
    return v


def ctor_box(en, fn, t, kind, args, e):
    if kind in ("copyctor", "movector"):
        v = en.val(args[0])
        if kind == "movector" and isinstance(args[0], Loc) and t.k in ("uptr", "sptr"):
            en.store(args[0].f("has"), FALSE)
        elif isinstance(args[0], Loc) and t.k == "sptr":
            en.st.ghost["sptr_copied"] = True
        return v
    if not args:
        return en.vinit(t)
    a = en.val(args[0])
    if isinstance(a, PtrV) and z3.is_true(as_bool(a.null)):
        return en.vinit(t)
    if isinstance(a, RecV) and a.kind == "nullopt":
        return en.vinit(t)
    if isinstance(a, RecV) and a.kind == t.k:
        return a
    h = LIB.get("ptrctor:" + t.k)
    if h:
        r = h(en, t, a, args)
        if r is not None:
            return r
    if t.k == "opt":
        return RecV("opt", {"has": TRUE, "v": conv(en, a, t.a[0])}, t)
    if isinstance(a, PtrV):
        return adopt(en, t, a)
    return None


for _k in ("opt", "uptr", "sptr", "wptr"):
    LIB["ctor:" + _k] = ctor_box


@lib("ctor:variant")
def _(en, fn, t, kind, args, e):
    if kind in ("copyctor", "movector"):
        return en.val(args[0])
    if not args:
        return en.vinit(t)
    return None


@lib("ctor:monostate", "ctor:std::monostate")
def _(en, fn, t, kind, args, e):
    return RecV("monostate", {}, t)


@lib("std::move", "std::forward", "std::as_const", "std::addressof_", "std::move_if_noexcept")
def _(en, fn, obj, args, e):
    if len(args) != 1:
        return NotImplemented
    return args[0]


@lib("std::swap")
def _(en, fn, obj, args, e):
    a, b = en.load(args[0]), en.load(args[1])
    en.store(args[0], b)
    en.store(args[1], a)


@lib("std::exchange")
def _(en, fn, obj, args, e):
    a = en.load(args[0])
    b = en.val(args[1])
    if isinstance(a, CharP) and isinstance(b, PtrV):
        b = CharP(TRUE, lit(""), True)
    en.store(args[0], b)
    return a


@lib("std::min", "std::max")
def _(en, fn, obj, args, e):
    if len(args) != 2:
        return NotImplemented
    a, b = en.val(args[0]), en.val(args[1])
    return If(b < a, b, a) if fn["q"] == "std::min" else If(a < b, b, a)


@lib("strlen", "std::strlen", "std::char_traits::length")
def _(en, fn, obj, args, e):
    p = en.val(args[0])
    if not z3.is_false(p.null):
        en.oblige("J03", "strlen is not called with a null pointer", Not(p.null))
    return s_len(s_cstr(p.s))


@lib("std::get")
def _(en, fn, obj, args, e):
    a = fn["targs"][0] if fn.get("targs") else None
    t = en.u.ty(e["a"][0]["t"])
    if a is None:
        return NotImplemented
    if "i" in a:
        n = int(a["i"])
    else:
        want = en.u.ty(a["t"])
        n = [i for i, x in enumerate(t.a) if x.sig() == want.sig()][0]
    l = en.as_loc(args[0])
    if t.k == "variant":
        v = en.load(l)
        if not en.decide(And(Not(v.f["vl"]), v.f["idx"] == n)):
            raise CppThrow(RecV("exc", {}), Ty("rec", name="std::bad_variant_access"))
        return l.step("alt", n)
    if t.k == "pair":
        return l.f("first" if n == 0 else "second")
    return l.f(str(n))


@lib("std::get_if")
def _(en, fn, obj, args, e):
    p = en.val(args[0])
    a = fn["targs"][0]
    v = en.load(p.loc)
    if "i" in a:
        n = int(a["i"])
    else:
        want = en.u.ty(a["t"])
        n = [i for i, x in enumerate(v.ty.a) if x.sig() == want.sig()][0]
    if en.decide(And(Not(v.f["vl"]), v.f["idx"] == n)):
        return PtrV(False, p.loc.step("alt", n))
    return PtrV(True, None)


@lib("std::holds_alternative")
def _(en, fn, obj, args, e):
    v = en.val(args[0])
    want = en.u.ty(fn["targs"][0]["t"])
    n = [i for i, x in enumerate(v.ty.a) if x.sig() == want.sig()][0]
    return And(Not(v.f["vl"]), v.f["idx"] == n)


@lib("std::visit")
def _(en, fn, obj, args, e):
    lam = en.val(args[0])
    vl = en.as_loc(args[1])
    v = en.load(vl)
    vt = en.u.ty(e["a"][1]["t"])
    if en.decide(v.f["vl"]):
        raise CppThrow(RecV("exc", {}), Ty("rec", name="std::bad_variant_access"))
    for i, at in enumerate(vt.a):
        last = i == len(vt.a) - 1
        if last or en.decide(v.f["idx"] == i):
            return apply_lambda(en, lam, [vl.step("alt", i)], [at])
    return None


@lib("std::apply")
def _(en, fn, obj, args, e):
    l = en.as_loc(args[1])
    t = en.u.ty(e["a"][1]["t"])
    if t.k not in ("tuple", "pair"):
        raise Unsupported("std::apply to %r" % t)
    names = ["first", "second"] if t.k == "pair" else [str(i) for i in range(len(t.a))]
    return apply_lambda(en, en.val(args[0]), [l.f(n) for n in names], list(t.a))


def apply_lambda(en, lam, args, tys=None):
    """Calls a lambda value or function; generic lambdas are dispatched on the argument types."""
    if isinstance(lam, FnV):
        return en.call(lam.fn, None, args, {})
    if not isinstance(lam, LamV):
        raise Unsupported("calling %r" % (lam,))
    cands = []
    for op in lam.ops:
        f = en.u.functions.get(op["id"])
        if f is None or len(f["params"]) != len(args):
            continue
        if tys is None or all(en.u.ty(p["t"]).sig() == t.sig() for p, t in zip(f["params"], tys)):
            cands.append(f)
    if len(cands) == 0:
        raise Unsupported("no matching instantiation of a lambda")
    return en.inline(cands[0], None, args, lam.env, lam.this)


@lib("std::make_unique", "std::make_shared")
def _(en, fn, obj, args, e):
    t = en.u.ty(e["t"])
    el = t.a[0]
    h = LIB.get("make:" + t.k)
    if h:
        r = h(en, fn, t, el, args, e)
        if r is not None:
            return r
    if not args:
        return RecV(t.k, {"has": TRUE, "v": value_construct(en, el)}, t)
    v = en.val(args[0]) if len(args) == 1 else None
    if el.k == "rec" and not (isinstance(v, RecV) and v.ty is not None and v.ty.sig() == el.sig()):
        bare = lambda t: en.u.noref(t).replace("const ", "").strip()
        name, pts = el.x.get("name"), [bare(p) for p in fn["pt"]]
        cs = [f for f in en.u.functions.values() if f.get("cls") == name and f["kind"] in ("ctor", "defctor") and [bare(p) for p in f["pt"]] == pts]
        if len(cs) != 1:
            raise Unsupported("constructor of %s" % name)
        c = en.run_ctor(cs[0], el, args)
        return RecV(t.k, {"has": TRUE, "v": en.load(c) if isinstance(c, Loc) else c}, t)
    if len(args) == 1:
        return RecV(t.k, {"has": TRUE, "v": conv(en, args[0], el)}, t)
    return NotImplemented


def adopt(en, t, p):
    """A smart pointer of type t owning the object behind a raw pointer obtained from `new`."""
    h = LIB.get("adopt:" + t.k)
    r = h(en, t, p) if h else None
    return r if r is not None else RecV(t.k, {"has": TRUE, "v": en.adopt(p)}, t)


def value_construct(en, ty):
    """T() - value initialisation as done by library code."""
    return en.vinit(ty)


@lib("std::tie", "std::make_tuple", "std::forward_as_tuple")
def _(en, fn, obj, args, e):
    raise Unsupported(fn["q"])


@lib("std::make_pair")
def _(en, fn, obj, args, e):
    return RecV("pair", {"first": en.val(args[0]), "second": en.val(args[1])}, en.u.ty(e["t"]))


@lib("std::begin", "std::cbegin", "std::end", "std::cend", "std::size", "std::empty", "std::data", "std::ssize")
def _(en, fn, obj, args, e):
    m = fn["q"].split("::")[-1]
    t = en.u.ty(e["a"][0]["t"])
    return method(en, t, m, args[0], [], fn, e)


@lib("std::distance")
def _(en, fn, obj, args, e):
    return en.binop("-", en.val(args[1]), en.val(args[0]), None, None)


@lib("std::next", "std::prev", "std::advance")
def _(en, fn, obj, args, e):
    it = en.val(args[0])
    n = en.val(args[1]) if len(args) > 1 else IntVal(1)
    if not isinstance(it, IterV):
        return NotImplemented
    r = IterV(it.kind, it.loc, simp(it.pos - n if fn["q"] == "std::prev" else it.pos + n), it.ty)
    if fn["q"] == "std::advance":
        en.store(args[0], r)
        return None
    return r


def algo_loop(en, name, it0, end, body):
    """An algorithm over [it0, end) as a loop with invariants; body(deref) may raise Break."""
    fr = en_frame(en)
    cell = en.new_cell(it0)

    def cond():
        return en.iterop("!=", en.load(cell), end)

    def inc():
        it = en.load(cell)
        en.store(cell, IterV(it.kind, it.loc, simp(it.pos + 1), it.ty))
    s = ALGO.setdefault((name, en.line, en.fnstack[-1]["diag"] if en.fnstack else ""), {"s": "algo", "l": en.line})
    en.loop(s, fr, cond, lambda: body(en.deref(en.load(cell))), inc)
    return en.load(cell)


ALGO = {}


def en_frame(en):
    fr = Frame(en.fnstack[-1] if en.fnstack else None)
    return fr


@lib("std::for_each")
def _(en, fn, obj, args, e):
    a, b, f = en.val(args[0]), en.val(args[1]), en.val(args[2])
    if not isinstance(a, IterV):
        return NotImplemented
    algo_loop(en, "for_each", a, b, lambda x: apply_lambda(en, f, [x]))
    return f


@lib("std::any_of", "std::all_of", "std::none_of", "std::find_if")
def _(en, fn, obj, args, e):
    a, b, f = en.val(args[0]), en.val(args[1]), en.val(args[2])
    if not isinstance(a, IterV):
        return NotImplemented
    m = fn["q"].split("::")[-1]
    found = en.new_cell(FALSE)

    def body(x):
        r = en.tobool(en.val(apply_lambda(en, f, [x])))
        if m == "all_of":
            r = Not(r)
        if en.decide(r):
            en.store(found, TRUE)
            raise Break()
    it = algo_loop(en, m, a, b, body)
    if m == "find_if":
        return it
    r = en.load(found)
    return r if m == "any_of" else Not(r)


def seq_append(en, v, el, src, sel, n):
    """v with the first n elements of src appended, each one converted to the type el."""
    items = []
    t = src
    while T.app(t, T.seq_push):
        items.insert(0, t.arg(1))
        t = t.arg(0)
    if t.eq(T.seq_empty) and (not items and n.eq(T.seq_len(t)) or en.must(n == len(items))):
        for x in items:
            v = T.seq_push(v, en.box(conv(en, en.unbox(x, sel), el), el))
        return v
    if sel.sig() == el.sig() and n.eq(T.seq_len(src)):
        # appending a whole sequence which has been built by appending is appending its parts
        if T.app(src, T.seq_push):
            return T.seq_push(seq_append(en, v, el, src.arg(0), sel, T.seq_len(src.arg(0))), src.arg(1))
        d = src.decl().name() if z3.is_app(src) and src.num_args() == 3 else ""
        if d.startswith("append<") and d.endswith(",%s>" % el.sig()) and d in T.Folds.defs:
            w, s, k = src.children()
            return T.Folds.defs[d](seq_append(en, v, el, w, el, T.seq_len(w)), s, k)
    name = "append<%s,%s>" % (sel.sig(), el.sig())
    if name not in T.Folds.defs:
        T.deffold(name, [T.SeqS, T.SeqS], T.SeqS, lambda v, s: v, lambda v, s, k, p: T.seq_push(p, en.box(conv(en, en.unbox(T.seq_at(s, k), sel), el), el)))
    return T.Folds.defs[name](v, src, n)


@lib("declinit:ilist")
def _(en, v, t, fr):
    """A variable of the type std::initializer_list: the sequence of its elements."""
    x = v["init"]
    if x.get("e") != "stdinit":
        return None
    x = x["x"]
    while x.get("e") in ("mat", "cast"):
        x = x["x"]
    if x.get("e") != "ilist":
        return None
    s = T.seq_empty
    for y in x["a"]:
        i = conv(en, en.ev(y, fr), t.a[0])
        if v.get("static") and not closed(en.val(i)):
            # initialized by whichever call came first
            i = en.fresh_value(t.a[0], v.get("name") or "static")
        s = T.seq_push(s, en.box(i, t.a[0]))
    return s


# ---- container methods ----------------------------------------------------------------------------------------------
def cont_iter(en, loc, pos, ty):
    return IterV("cont", loc, pos, ty)


@lib("deref:cont")
def _(en, it):
    ty = it.ty
    v = en.load(it.loc)
    n = SIZE[ty.k](v)
    en.oblige("J03", "iterator is dereferenceable", And(it.pos >= 0, it.pos < n))
    return elem_loc(it.loc, it.pos, ty)


def elem_loc(loc, pos, ty):
    if ty.k in ("map", "mmap"):
        return loc.step("mit", pos, ty.a[0], ty.a[1])
    return loc.step("at", pos, ty.a[0])


@lib("iterlimit:cont")
def _(en, it):
    return SIZE[it.ty.k](en.load(it.loc))


@lib("deref:mmel")
def _(en, it):
    cur = en.load(it.loc)
    base = it.pos
    c = cur
    while T.app(c, T.mm_setlast):
        c = c.arg(0)
    if not (T.app(c, T.mm_ins) and c.arg(0).eq(base.arg(0)) and c.arg(1).eq(base.arg(1))):
        raise Unsupported("iterator to an inserted multimap element after further changes")
    return it.loc.step("mmel", it.ty.a[0], it.ty.a[1])


@lib("proj:mmel")
def _(en, v, st):
    if T.app(v, T.mm_ins):
        k, x = v.arg(1), v.arg(2)
    else:
        x = v.arg(1)
        c = v
        while T.app(c, T.mm_setlast):
            c = c.arg(0)
        k = c.arg(1)
    return RecV("pair", {"first": en.unbox(k, st[1]), "second": en.unbox(x, st[2])})


@lib("upd:mmel")
def _(en, v, st, nv):
    return T.m_setlast(v, en.box(nv.f["second"], st[2]))


@lib("deref:setel")
def _(en, it):
    raise Unsupported("element behind an inserted set iterator")


def method(en, ty, m, obj, args, fn, e):
    """Method m of a standard container or string; obj is a location or value."""
    if ty.k == "ilist":
        ty = Ty("seq", ty.a, key=ty.key)
    k = ty.k
    loc = obj if isinstance(obj, Loc) else en.new_cell(obj)
    v = en.load(loc)
    if k in CONT_KINDS:
        el = ty.a[0]
        if m == "clear":
            en.store(loc, EMPTY[k])
            return None
        if m in ("size",):
            n = SIZE[k](v)
            if not z3.is_int_value(simp(n)):
                en.assume(n < 1 << 63)  # max_size()
            return n
        if m == "empty":
            return SIZE[k](v) == 0
        if m in ("begin", "cbegin"):
            return cont_iter(en, loc, IntVal(0), ty)
        if m in ("end", "cend"):
            return cont_iter(en, loc, SIZE[k](v), ty)
        if m in ("reserve", "shrink_to_fit", "rehash", "capacity", "max_load_factor"):
            return None
        if m == "swap":
            o = en.load(args[0])
            en.store(args[0], v)
            en.store(loc, o)
            return None
        if m == "operator=":
            nv = en.val(args[0])
            if isinstance(nv, RecV):
                return NotImplemented
            en.store(loc, nv)
            return loc
    if k == "seq":
        if m == "emplace_back" and not args:
            en.store(loc, T.seq_push(v, en.box(value_construct(en, el), el)))
            return loc.step("back", el)
        if m in ("push_back", "emplace_back") and len(args) == 1:
            x = conv(en, args[0], el)
            en.store(loc, T.seq_push(v, en.box(x, el)))
            return loc.step("back", el)
        if m == "emplace_back" and el.k == "rec" and el.x.get("repo"):
            fs = [f for f in en.u.functions.values() if f["q"] == el.x["name"] + "::(ctor)" and len(f["params"]) == len(args) and f.get("body") is not None]
            if len(fs) == 1:
                en.store(loc, T.seq_push(v, en.box(en.run_ctor(fs[0], el, list(args)), el)))
                return loc.step("back", el)
        if m == "insert" and len(args) == 3:
            at, a, b = [en.val(x) for x in args]
            if all(isinstance(x, IterV) and x.kind == "cont" for x in (at, a, b)) and at.loc == loc and a.loc == b.loc and a.loc != loc and a.ty.k == "seq":
                src = en.load(a.loc)
                if en.must(a.pos == b.pos):
                    return cont_iter(en, loc, at.pos, ty)
                if en.must(And(at.pos == T.seq_len(v), a.pos == 0, b.pos == T.seq_len(src))):
                    en.store(loc, seq_append(en, v, el, src, a.ty.a[0], T.seq_len(src)))
                    return cont_iter(en, loc, T.seq_len(v), ty)
                if en.must(And(at.pos == 0, a.pos == 0, b.pos == T.seq_len(src))):
                    front = seq_append(en, en.vinit(ty), el, src, a.ty.a[0], T.seq_len(src))
                    en.store(loc, seq_append(en, front, el, v, el, T.seq_len(v)))
                    return cont_iter(en, loc, IntVal(0), ty)
        if m == "back":
            en.oblige("J03", "back() is not called on an empty container", seq_nonempty(v))
            return loc.step("back", el)
        if m == "front":
            en.oblige("J03", "front() is not called on an empty container", seq_nonempty(v))
            return loc.step("at", IntVal(0), el)
        if m in ("operator[]", "at"):
            i = en.val(args[0])
            g = And(i >= 0, i < T.seq_len(v))
            if m == "at":
                if not en.decide(g):
                    raise CppThrow(RecV("exc", {}), Ty("rec", name="std::out_of_range"))
            else:
                en.oblige("J03", "index is within the container", g)
            return loc.step("at", i, el)
        if m == "resize":
            n = en.val(args[0])
            x = en.val(args[1]) if len(args) > 1 else value_construct(en, el)
            en.store(loc, T.seq_resize(v, n, en.box(x, el)))
            return None
        if m == "pop_back" and T.app(v, T.seq_push):
            en.store(loc, v.arg(0))
            return None
    if k == "set":
        if m in ("emplace", "insert") and len(args) == 1 and not isinstance(en.val(args[0]), IterV):
            b = en.box(conv(en, args[0], el), el)
            has = T.set_has(v, b)
            en.store(loc, T.set_ins(v, b))
            return RecV("pair", {"first": IterV("setel", loc, b, ty), "second": Not(has)})
        if m in ("count", "contains"):
            has = T.set_has(v, en.box(conv(en, args[0], el), el))
            return has if m == "contains" else If(has, IntVal(1), IntVal(0))
        if m in ("emplace_hint", "insert") and len(args) == 2:
            b = en.box(conv(en, args[1], el), el)
            en.store(loc, T.set_ins(v, b))
            return IterV("setel", loc, b, ty)
        if m == "find":
            b = en.box(conv(en, args[0], el), el)
            p = z3.Function("set_find", SetS, Val, z3.IntSort())(v, b)
            en.assume(And(p >= 0, p <= T.set_size(v), (p < T.set_size(v)) == T.set_has(v, b), Implies(p < T.set_size(v), T.set_at(v, p) == b)))
            return cont_iter(en, loc, p, ty)
    if k == "mset":
        if m in ("emplace", "insert") and len(args) == 1:
            b = en.box(conv(en, args[0], el), el)
            en.store(loc, T.ms_ins(v, b))
            return IterV("setel", loc, b, ty)
        if m in ("emplace_hint", "insert") and len(args) == 2:
            b = en.box(conv(en, args[1], el), el)
            en.store(loc, T.ms_ins(v, b))
            return IterV("setel", loc, b, ty)
    if k == "map":
        kt, vt = ty.a[0], ty.a[1]
        if m == "operator[]":
            key = en.box(conv(en, args[0], kt), kt)
            has = T.m_has(v, key)
            if not z3.is_true(has):
                cur = T.m_get(v, key)
                en.store(loc, T.mp_put(v, key, If(has, cur, en.box(value_construct(en, vt), vt))))
            return loc.step("key", key, vt)
        if m == "at":
            key = en.box(conv(en, args[0], kt), kt)
            if not en.decide(T.m_has(v, key)):
                raise CppThrow(RecV("exc", {}), Ty("rec", name="std::out_of_range"))
            return loc.step("key", key, vt)
        if m in ("count", "contains"):
            has = T.m_has(v, en.box(conv(en, args[0], kt), kt))
            return has if m == "contains" else If(has, IntVal(1), IntVal(0))
        if m in ("insert", "emplace_hint") and len(args) >= 2 and isinstance(en.val(args[0]), IterV):
            r = method(en, ty, "emplace", loc, args[1:], fn, e)         # the position is just a hint
            return r.f["first"] if isinstance(r, RecV) else r
        if m in ("emplace", "try_emplace", "insert", "insert_or_assign"):
            if m == "insert" or len(args) == 1:
                p = en.val(args[0])
                if not (isinstance(p, RecV) and p.kind == "pair"):
                    return NotImplemented
                key, x = en.box(conv(en, p.f["first"], kt), kt), conv(en, p.f["second"], vt)
            else:
                key = en.box(conv(en, args[0], kt), kt)
                x = conv(en, args[1], vt) if len(args) > 1 else value_construct(en, vt)
            has = T.m_has(v, key)
            if m == "insert_or_assign":
                en.store(loc, T.mp_put(v, key, en.box(x, vt)))
            elif en.decide(has):
                pass
            else:
                en.store(loc, T.mp_put(v, key, en.box(x, vt)))
            return RecV("pair", {"first": IterV("mapel", loc, key, ty), "second": Not(has)})
        if m == "find":
            key = en.box(conv(en, args[0], kt), kt)
            if en.decide(T.m_has(v, key)):
                return IterV("mapel", loc, key, ty)
            return cont_iter(en, loc, T.mp_size(v), ty)
    if k == "mmap":
        kt, vt = ty.a[0], ty.a[1]
        if m in ("insert", "emplace_hint") and len(args) == 2 and isinstance(en.val(args[0]), IterV) and fn["q"].startswith("std::multimap::"):
            # with the end as hint an entry goes behind the existing ones of the same key, as without hint
            at = en.val(args[0])
            if at.kind != "cont" or at.loc != loc or not en.must(at.pos == SIZE[k](v)):
                return NotImplemented
            args, m = args[1:], "insert"
        if m in ("insert", "emplace"):
            if len(args) == 2:
                key, x = conv(en, args[0], kt), conv(en, args[1], vt)
                if isinstance(en.val(args[0]), IterV):
                    return NotImplemented
            else:
                p = en.val(args[0])
                if not (isinstance(p, RecV) and p.kind == "pair"):
                    return NotImplemented
                key, x = conv(en, p.f["first"], kt), p.f["second"]
            nv = T.mm_ins(v, en.box(key, kt), en.box(x, vt))
            en.store(loc, nv)
            return IterV("mmel", loc, nv, ty)
    if k in ("opt", "uptr", "sptr", "wptr"):
        return boxed(en, ty, m, loc, v, args, fn, e)
    if k == "variant":
        return variant(en, ty, m, loc, v, args, fn, e)
    if k == "str":
        return string(en, ty, m, loc, v, args, fn, e)
    if k == "strview":
        if m in ("size", "length"):
            return s_len(v.f["s"])
        if m == "data":
            return CharP(v.f["null"], v.f["s"])
        if m == "empty":
            return s_len(v.f["s"]) == 0
        if m == "operator=":
            en.store(loc, en.val(args[0]))
            return loc
    if k in ("pair", "tuple"):
        if m == "operator=":
            en.store(loc, en.val(args[0]))
            return loc
    return NotImplemented


@lib("deref:mapel")
def _(en, it):
    return it.loc.step("mel", it.pos, it.ty.a[0], it.ty.a[1])


def seq_nonempty(v):
    if T.app(v, T.seq_push):
        return TRUE
    if T.app(v, T.seq_setback):
        return seq_nonempty(v.arg(0))
    return T.seq_len(v) > 0


def boxed(en, ty, m, loc, v, args, fn, e):
    h = LIB.get("boxed:" + ty.k)
    if h:
        r = h(en, ty, m, loc, v, args, fn, e)
        if r is not NotImplemented:
            return r
    has = v.f["has"]
    if m in ("operator conv", "has_value", "operator bool"):
        return has
    if m in ("use_count", "unique") and ty.k == "sptr":
        if en.o.get("use_count") and isinstance(loc, Loc) and (loc.cell, loc.path) == (en.o["use_count"][0].cell, en.o["use_count"][0].path) and not en.st.ghost.get("renewed"):
            n = en.o["use_count"][1]
            return n if m == "use_count" else n == 1
        n = en.fresh(z3.IntSort(), "use_count")      # whoever else shares the object; 0 if there is no control block
        en.assume(And(n >= 0, n < (1 << 31)))
        return n if m == "use_count" else n == 1
    if m == "swap":
        o = en.load(args[0])
        en.store(args[0], v)
        en.store(loc, o)
        return None
    if m in ("operator*", "operator->", "get", "value"):
        if m == "value":
            if not en.decide(has):
                raise CppThrow(RecV("exc", {}), Ty("rec", name="std::bad_optional_access"))
        elif m == "get":
            return PtrV(Not(has), loc.step("deref"))
        else:
            en.oblige("J03", "an empty optional or null pointer is not dereferenced", has)
        d = loc.step("deref")
        return PtrV(False, d) if m == "operator->" else d
    if m == "reset":
        if args and not (isinstance(en.val(args[0]), PtrV) and z3.is_true(as_bool(en.val(args[0]).null))):
            if len(args) > 1 or not isinstance(en.val(args[0]), PtrV):
                return NotImplemented
            en.store(loc, adopt(en, ty, en.val(args[0])))
            return None
        en.store(loc, en.vinit(ty))
        return None
    if m == "emplace":
        if not args:
            en.store(loc, RecV(ty.k, {"has": TRUE, "v": value_construct(en, ty.a[0])}, ty))
        else:
            en.store(loc, RecV(ty.k, {"has": TRUE, "v": conv(en, args[0], ty.a[0])}, ty))
        return loc.step("deref")
    if m == "operator=":
        a = en.val(args[0])
        if isinstance(a, PtrV) and z3.is_true(as_bool(a.null)) or isinstance(a, RecV) and a.kind == "nullopt":
            en.store(loc, en.vinit(ty))
        elif isinstance(a, RecV) and a.kind == ty.k:
            en.store(loc, a)
            if isinstance(args[0], Loc) and ty.k == "uptr":
                en.store(args[0].f("has"), FALSE)
                en.move_owner(args[0], loc)
            elif isinstance(args[0], Loc) and ty.k == "sptr":
                pt = en.u.types[fn["pt"][0]] if fn.get("pt") and isinstance(fn["pt"][0], int) else fn.get("pt", [""])[0]
                if str(pt).rstrip().endswith("&&"):
                    en.store(args[0].f("has"), FALSE)
                else:
                    en.st.ghost["sptr_copied"] = True
        elif isinstance(a, RecV) and a.kind in ("uptr", "sptr") and ty.k == "sptr":
            en.store(loc, RecV(ty.k, dict(a.f), ty))
        elif ty.k == "opt":
            en.store(loc, RecV("opt", {"has": TRUE, "v": conv(en, a, ty.a[0])}, ty))
        else:
            return NotImplemented
        return loc
    return NotImplemented


def variant(en, ty, m, loc, v, args, fn, e):
    if m == "index":
        return If(v.f["vl"], IntVal((1 << 64) - 1), v.f["idx"])
    if m == "valueless_by_exception":
        return v.f["vl"]
    if m == "emplace":
        a = fn["targs"][0]
        if "i" in a:
            n = int(a["i"])
        else:
            want = en.u.ty(a["t"])
            n = [i for i, x in enumerate(ty.a) if x.sig() == want.sig()][0]
        x = value_construct(en, ty.a[n]) if not args else conv(en, args[0], ty.a[n])
        en.store(loc, v.with_("vl", FALSE).with_("idx", IntVal(n)).with_(str(n), x))
        return loc.step("alt", n)
    if m == "operator=":
        at = en.u.ty(e["a"][-1]["t"]) if e.get("a") else None
        a = en.val(args[0])
        if isinstance(a, RecV) and a.kind == "variant":
            en.store(loc, a)
            return loc
        for i, x in enumerate(ty.a):
            if x.sig() == at.sig() or x.k == at.k == "monostate":
                en.store(loc, v.with_("vl", FALSE).with_("idx", IntVal(i)).with_(str(i), a))
                return loc
    return NotImplemented


def string(en, ty, m, loc, v, args, fn, e):
    s = strterm(v) if isinstance(v, StrP) else v
    if isinstance(v, Uninit):
        raise Unsupported("uninitialised string")
    if m in ("data", "c_str"):
        return CharP(FALSE, s)
    if m in ("size", "length"):
        return s_len(s)
    if m == "empty":
        return s_len(s) == 0
    if m == "clear":
        en.store(loc, lit(""))
        return None
    if m in ("reserve", "shrink_to_fit"):
        return None
    if m in ("operator=", "assign"):
        a = [en.val(x) for x in args]
        if len(a) == 1:
            if isinstance(a[0], CharP) and not z3.is_false(a[0].null):
                en.oblige("J03", "std::string is not assigned from a null pointer", Not(a[0].null))
            en.store(loc, str_of(en, a[0]))
            return loc
        if len(a) == 2 and isinstance(a[0], CharP) and isinstance(a[1], z3.ExprRef):
            en.oblige("J03", "string length is within the buffer", And(a[1] >= 0, a[1] <= s_len(a[0].s) + 1))
            en.store(loc, s_prefix(a[0].s, a[1]))
            return loc
    if m in ("operator+=", "append", "push_back"):
        a = [en.val(x) for x in args]
        if len(a) == 1:
            en.store(loc, s_cat(s, str_of(en, a[0])))
            return loc
        if len(a) == 2 and isinstance(a[0], CharP):
            en.store(loc, s_cat(s, s_prefix(a[0].s, a[1])))
            return loc
    if m == "operator conv" or m == "operator basic_string_view":
        return mkview(s)
    if m == "resize":
        n = en.val(args[0])
        r = z3.Function("str_resize", Str, z3.IntSort(), Str)(s, n)
        en.assume(slen(r) == n)
        en.store(loc, r)
        return None
    h = LIB.get("string:" + m)
    if h:
        return h(en, loc, s, args, e)
    return NotImplemented


STD_CLASSES = ("std::initializer_list", "std::vector", "std::array", "std::list", "std::deque", "std::forward_list", "std::set", "std::unordered_set", "std::multiset",
               "std::unordered_multiset", "std::map", "std::unordered_map", "std::multimap", "std::unordered_multimap", "std::optional",
               "std::unique_ptr", "std::shared_ptr", "std::weak_ptr", "std::__shared_ptr", "std::__shared_ptr_access", "std::variant",
               "std::basic_string", "std::basic_string_view", "std::pair", "std::tuple", "std::_Optional_base_impl", "std::__cxx11::basic_string",
               "std::__cxx11::list", "std::__weak_ptr")


@lib("*")
def _(en, fn, obj, args, e):
    q = fn["q"]
    # iterators
    first = obj if obj is not None else (args[0] if args else None)
    fv = en.load(first) if isinstance(first, Loc) else first
    m = q.split("::")[-1]
    if isinstance(fv, IterV) and m.startswith("operator"):
        op = m[8:]
        rest = args if obj is not None else args[1:]
        if op == "*" and not rest:
            return en.deref(fv)
        if op == "->":
            return PtrV(False, en.deref(fv))
        if op in ("++", "--"):
            n = IterV(fv.kind, fv.loc, simp(fv.pos + (1 if op == "++" else -1)), fv.ty)
            en.store(first, n)
            return fv if rest else first
        if op in ("==", "!=", "<", ">", "<=", ">=", "-", "+") and rest:
            return en.iterop(op, fv, en.val(rest[0]))
        if op in ("+=", "-="):
            en.store(first, en.iterop(op[0], fv, en.val(rest[0])))
            return first
        if op == "=":
            en.store(first, en.val(rest[0]))
            return first
        if op == "[]":
            return en.deref(IterV(fv.kind, fv.loc, simp(fv.pos + en.val(rest[0])), fv.ty))
    if isinstance(fv, IterV) and m == "base":
        return fv
    if obj is not None and "obj" in e and q.rsplit("::", 1)[0] in STD_CLASSES:
        t = objty(en, e)
        if t.k == "rec" and isinstance(fv, RecV) and fv.kind in ("opt", "sptr", "uptr", "wptr", "variant") and fv.ty is not None:
            t = fv.ty
        if t.k == "rec":
            h = LIB.get("stdbase:" + t.x.get("name", ""))
            if h:
                return h(en, t, m, obj, args, fn, e)
        if t.k == "lambda":
            return NotImplemented
        h = LIB.get("vector:" + (t.a[0].x.get("name", "") if t.k == "seq" and t.a and t.a[0].k == "rec" else ""))
        if h:
            r = h(en, t, m, obj, args, fn, e)
            if r is not NotImplemented:
                return r
        return method(en, t, m, obj, args, fn, e)
    if q in ("std::operator==", "std::operator!=", "std::operator<") and len(args) == 2:
        a, b = en.val(args[0]), en.val(args[1])
        if isinstance(a, RecV) and a.kind in ("uptr", "sptr", "opt") and isinstance(b, PtrV):
            r = Not(a.f["has"])
        elif all(is_strish(x) for x in (a, b)):
            if m == "operator<":
                return z3.Function("str_less", Str, Str, z3.BoolSort())(str_of(en, a), str_of(en, b))
            r = str_of(en, a) == str_of(en, b)
        else:
            r = en.cmp_eq(a, b)
        return r if m == "operator==" else Not(r)
    if q == "std::operator+" and len(args) == 2 and all(is_strish(en.val(a)) for a in args):
        return s_cat(str_of(en, args[0]), str_of(en, args[1]))
    if m == "operator=" and obj is not None and len(args) == 1 and isinstance(obj, Loc):
        # implicit copy/move assignment of class types
        if fn.get("defaulted"):
            t = objty(en, e)
            en.store(obj, en.val(args[0]))
            return obj
    return NotImplemented


def is_strish(v):
    return isinstance(v, (CharP, StrP)) or (isinstance(v, RecV) and v.kind in ("strview", "sref")) or (
        isinstance(v, z3.ExprRef) and v.sort() in (Str, z3.IntSort()))


@lib("bindings")
def _bind(en, v, fr):
    loc = fr.env[v["id"]]
    val = en.load(loc)
    names = list(val.f.keys()) if isinstance(val, RecV) else None
    if names is None:
        raise Unsupported("structured bindings")
    for n, b in zip(names, v["bindings"]):
        fr.env[b["id"]] = loc.f(n)


@lib("std::numeric_limits::max", "std::numeric_limits::min", "std::numeric_limits::lowest")
def _(en, fn, obj, args, e):
    t = en.u.ty(e["t"])
    m = fn["q"].split("::")[-1]
    if t.k == "int":
        return IntVal((INT_MAX if m == "max" else INT_MIN)[t.x["bits"], t.x["signed"]])
    from fractions import Fraction
    F = {"f32": 340282346638528859811704183484516925440, "f64": int(1.7976931348623157e308)}[t.k]
    if m == "min":
        raise Unsupported("numeric_limits<float>::min")
    c = en.f64const(Fraction(F if m == "max" else -F))
    return c if t.k == "f64" else f32_of_f64(c)


f64trunc = z3.Function("f64trunc", F64, F64)


@T.rule(f64trunc)
def _(t, c):
    d = t.arg(0)
    r = T.f64real(d)
    return [f64nan(t) == f64nan(d), f64inf(t) == f64inf(d), T.f64real(t) == z3.ToReal(If(r >= 0, z3.ToInt(r), -z3.ToInt(-r)))]


@lib("std::trunc", "trunc")
def _(en, fn, obj, args, e):
    v = en.val(args[0])
    if v.sort() != F64:
        return NotImplemented
    return f64trunc(v)


@lib("std::isfinite", "std::isnan", "std::isinf")
def _(en, fn, obj, args, e):
    v = en.val(args[0])
    if v.sort() != F64:
        return NotImplemented
    m = fn["q"].split("::")[-1]
    return And(Not(f64nan(v)), f64inf(v) == 0) if m == "isfinite" else f64nan(v) if m == "isnan" else And(Not(f64nan(v)), f64inf(v) != 0)


# ---- DateTime, TimeSpan: a number of ticks ----
@lib("ctor:CppUtilities::DateTime", "ctor:CppUtilities::TimeSpan")
def _(en, fn, t, kind, args, e):
    if not args:
        return RecV("chrono", {"ticks": IntVal(0)}, t)
    v = en.val(args[0])
    if kind in ("copyctor", "movector"):
        return v
    if isinstance(v, z3.ExprRef) and len(args) == 1:
        return RecV("chrono", {"ticks": v}, t)
    raise Unsupported("constructor of %r" % t)


@lib("CppUtilities::DateTime::operator=", "CppUtilities::TimeSpan::operator=")
def _(en, fn, obj, args, e):
    en.store(obj, en.val(args[0]))
    return obj


@lib("CppUtilities::DateTime::ticks", "CppUtilities::TimeSpan::ticks")
def _(en, fn, obj, args, e):
    return obj.f("ticks")


@lib("CppUtilities::DateTime::totalTicks", "CppUtilities::TimeSpan::totalTicks")
def _(en, fn, obj, args, e):
    return en.val(obj).f["ticks"]


@lib("ctor:__gnu_cxx::__normal_iterator", "ctor:std::_Rb_tree_const_iterator", "ctor:std::__detail::_Node_const_iterator", "ctor:std::_List_const_iterator", "ctor:std::_Deque_iterator")
def _(en, fn, t, kind, args, e):
    """An iterator copied or turned into one to constants."""
    v = en.val(args[0]) if len(args) == 1 else None
    if not isinstance(v, IterV):
        raise Unsupported("iterator constructor")
    return v
