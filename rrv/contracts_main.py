"""Contract of the generator's command line (G05): main(), the options and how the code factory is set up.

The command line parser itself (C++ Utilities) is a trusted dependency: an argument is known by its name, whether it is
present and which values it has are arbitrary. Whether a stream works is arbitrary as well and decided anew whenever
something is written to it."""
import z3
from z3 import And, Or, Not, If, Implies, IntVal, BoolVal
from .sym import *
from . import theory as T
from . import lib_clang as C
from .lib_std import LIB, lib, str_of, is_strish, conv
from .engine import Engine, Loc, State, CppThrow, PathEnd
from .ir import Ty
from .lib_clang import object_at, I, B, uf
from .contracts_gen import NS, FAC, GEN, JGEN, BGEN, GenContracts, CallContract, start, make_factory, acc, fold_emit, eqv, kinds

TAG = "G05"
ARGS = ("CppUtilities::Argument", "CppUtilities::ConfigValueArgument", "CppUtilities::OperationArgument", "CppUtilities::HelpArgument", "CppUtilities::NoColorArgument")
argument = z3.Function("argument", Str, I)
VAR = (1 << 64) - 1


@T.rule(argument)
def _(t, c):
    return [t > 0]


def arg(name):
    return argument(lit(name))


def name_of_arg(t):
    if T.app(t, argument):
        return lit_of(t.arg(0))
    return None


def present(name):
    return acc("CppUtilities::Argument::isPresent", B, arg(name))


def values(name):
    return acc("CppUtilities::Argument::values", SeqS, arg(name), IntVal(0))


def active(en):
    return "cli" in en.st.ghost


def cli(en):
    return dict(en.st.ghost["cli"])


def note(en, key, value):
    d = cli(en)
    d[key] = value
    en.st.ghost["cli"] = tuple(d.items())


# ---- arguments -----------------------------------------------------------------------------------------------------------
def make_argument(en, fn, t, kind, args, e):
    """An argument is known by its name."""
    if not active(en):
        return None
    cls = t.x["name"]
    if kind in ("copyctor", "movector"):
        raise Unsupported("a copy of an argument")
    if cls.endswith("ArgumentParser"):
        return arg("parser")
    if cls.endswith(("HelpArgument", "NoColorArgument")):
        n = "help" if cls.endswith("HelpArgument") else "no-color"
        note(en, ("count", n), 0)
        return arg(n)
    v = en.val(args[0])
    n = lit_of(v.s) if isinstance(v, CharP) else None
    if n is None:
        n = lit_of(T.s_cstr(v.s)) if isinstance(v, CharP) else None
    if n is None:
        raise Unsupported("the name of an argument")
    count = 0
    if cls.endswith("ConfigValueArgument") and len(args) > 3:
        count = list_length(en, args[3])
    note(en, ("count", n), count)
    return arg(n)


def list_length(en, x):
    v = en.val(x)
    if isinstance(v, RecV) and v.kind == "elems":
        return len(v.f)
    raise Unsupported("list of value names")


_ctor_ast = LIB["ctor:ast"]


@lib("ctor:ast")
def _(en, fn, t, kind, args, e):
    if t.x["name"].startswith("CppUtilities::"):
        r = make_argument(en, fn, t, kind, args, e)
        if r is not None:
            return r
    return _ctor_ast(en, fn, t, kind, args, e)


LIB["ctor:CppUtilities::HelpArgument"] = LIB["ctor:CppUtilities::NoColorArgument"] = make_argument


# what does not change which arguments there are and what they mean
COSMETIC = {"setValueNames", "setPreDefinedCompletionValues", "setCombinable", "setValueCompletionBehavior", "setExample", "setDescription", "setEnvironmentVariable", "setAbbreviation"}
_star = LIB["*"]


@lib("*")
def _(en, fn, obj, args, e):
    q = fn["q"]
    m = q.split("::")[-1]
    if active(en):
        r = cli_call(en, q, m, fn, obj, args, e)
        if r is not NotImplemented:
            return r
    return _star(en, fn, obj, args, e)


def cli_call(en, q, m, fn, obj, args, e):
    if q.startswith("CppUtilities::ArgumentParser"):
        if m == "setMainArguments":
            note(en, "main", elements(en, args[0]))
            return None
        if m == "addMainArgument":
            note(en, "main", cli(en).get("main", ()) + (name_of_arg(handle(en, args[0])),))
            return None
        if m in ("parseArgs", "parseArgsOrExit"):
            check_cli(en)
            note(en, "parsed", True)
            return None
        if m == "executable":
            en.oblige(TAG, "the command line is parsed before it is used", BoolVal(bool(cli(en).get("parsed"))), assume_after=False)
            return uf("ast:executable", [], Str)
        if m in ("setUnknownArgumentBehavior", "setIgnoreUnknownArguments", "setDefaultArgument"):
            raise Unsupported(q)
        return NotImplemented
    if q.startswith("CppUtilities::Argument::") or q.startswith("CppUtilities::ConfigValueArgument::"):
        n = name_of_arg(handle(en, obj))
        if n is None:
            raise Unsupported("%s for an unknown argument" % q)
        if m in COSMETIC:
            return None
        if m == "setRequiredValueCount":
            v = z3.simplify(en.val(args[0]))
            if not z3.is_int_value(v):
                raise Unsupported(q)
            note(en, ("count", n), v.as_long())
            return None
        if m in ("setRequired", "setImplicit", "setDenotesOperation"):
            v = z3.simplify(en.tobool(en.val(args[0])))
            if not (z3.is_true(v) or z3.is_false(v)):
                raise Unsupported(q)
            note(en, (m, n), z3.is_true(v))
            return None
        if m == "setSubArguments":
            note(en, ("sub", n), elements(en, args[0]))
            return None
        if m == "addSubArgument":
            note(en, ("sub", n), cli(en).get(("sub", n), ()) + (name_of_arg(handle(en, args[0])),))
            return None
        if m in ("isPresent", "values", "firstValue"):
            en.oblige(TAG, "the command line is parsed before it is used", BoolVal(bool(cli(en).get("parsed"))), assume_after=False)
            if m == "isPresent":
                return present(n)
            if m == "values":
                i = z3.simplify(en.val(args[0])) if args else IntVal(0)
                if not (z3.is_int_value(i) and i.as_long() == 0):
                    raise Unsupported("further occurrences of an argument")
                if n != "input-file":
                    en.oblige(TAG, "the values of arguments which are not present are not accessed", present(n), assume_after=False)
                if cli(en).get(("count", n), 0) != VAR:
                    en.assume(T.seq_len(values(n)) == cli(en).get(("count", n), 0))
                l = cli(en).get(("values", n))
                if l is None:
                    l = en.new_cell(values(n))
                    note(en, ("values", n), l)
                return l
        return NotImplemented
    return NotImplemented


def handle(en, a):
    v = en.val(a)
    if isinstance(v, PtrV) and v.loc is not None:
        v = en.load(v.loc)
    return v


def elements(en, a):
    v = en.val(a)
    if isinstance(v, RecV) and v.kind == "elems":
        out = tuple(name_of_arg(handle(en, x)) for x in v.f.values())
        if None not in out:
            return out
    raise Unsupported("list of arguments")


_ilist = LIB.get("ilist")


@lib("ilist")
def _(en, e, t, fr):
    if active(en) and t.k not in ("rec", "int", "bool", "cstr", "str") and (e["a"] or t.k in ("array", "ilist")):
        return RecV("elems", {str(i): en.rv(x, fr) for i, x in enumerate(e["a"])})
    return _ilist(en, e, t, fr) if _ilist else None


# name -> number of values (None: at least one, -1: any number)
OPTIONS = {"input-file": None, "output-file": 1, "generators": VAR, "clang-opt": VAR, "log-clang-opt": 0, "error-resilient": 0,
           "json-classes": VAR, "json-visibility": 1, "binary-classes": VAR, "binary-visibility": 1}


def check_cli(en):
    d = cli(en)
    main, sub = d.get("main", ()), d.get(("sub", "generate"), ())
    en.oblige(TAG, "the command line is parsed once", BoolVal(not d.get("parsed")), assume_after=False)
    for n in ("generate", "help"):
        en.oblige(TAG, "there is the option %s" % n, BoolVal(n in main), assume_after=False)
    en.oblige(TAG, "generating is the default operation", BoolVal(bool(d.get(("setImplicit", "generate")))), assume_after=False)
    for n, c in OPTIONS.items():
        en.oblige(TAG, "there is the option --%s" % n, BoolVal(sub.count(n) == 1), assume_after=False)
        k = d.get(("count", n))
        en.oblige(TAG, "the option --%s takes the documented number of values" % n, BoolVal(k == c if c is not None else bool(k)), assume_after=False)
    en.oblige(TAG, "the input file is required", BoolVal(bool(d.get(("setRequired", "input-file")))), assume_after=False)
    en.oblige(TAG, "no other option is required", BoolVal(not any(v and k[0] == "setRequired" and k[1] != "input-file" for k, v in d.items() if isinstance(k, tuple))), assume_after=False)


# ---- streams -------------------------------------------------------------------------------------------------------------
FAILBIT, BADBIT = 4, 1


def stream(open_):
    return RecV("iostream", {"open": BoolVal(open_), "failed": FALSE, "dirty": FALSE, "mask": IntVal(0)})


def globals_of(en, name):
    l = cli(en).get(("global", name))
    if l is None:
        raise Unsupported("stream %s" % name)
    return l


for _n in ("cout", "cerr", "clog"):
    def _g(en, e, n=_n):
        return globals_of(en, n) if active(en) else None
    LIB["global:" + _n] = _g


@lib("global:applicationInfo")
def _(en, e):
    none = CharP(FALSE, lit(""), True)
    return en.new_cell(RecV("rec", {n: none for n in ("name", "author", "version", "url", "domain", "description", "license", "credits")} | {"dependencyVersions": T.seq_empty}))


@lib("ctor:std::basic_ofstream")
def _(en, fn, t, kind, args, e):
    if not active(en) or args:
        return None
    return stream(False)


@lib("dtor:std::basic_ofstream")
def _(en, loc):
    if active(en):
        v = en.load(loc)
        en.store(loc, RecV("destroyed", {n: v.f[n] for n in ("failed", "dirty")}))


def stream_of(en, a):
    l = en.as_loc(a) if not isinstance(a, Loc) else a
    v = en.load(l)
    if isinstance(v, PtrV):
        l, v = v.loc, en.load(v.loc)
    if isinstance(v, RecV) and v.kind == "destroyed":
        en.oblige(TAG, "streams are not used after their destruction", FALSE, assume_after=False)
        raise PathEnd()
    return (l, v) if isinstance(v, RecV) and v.kind == "iostream" else (l, None)


IOFAIL = "std::ios_base::failure"


def io_failure(en, l):
    """Something went wrong with the stream; throws if it is configured to."""
    v = en.load(l)
    en.store(l.f("failed"), TRUE)
    m = z3.simplify(v.f["mask"])
    if not z3.is_int_value(m):
        raise Unsupported("exception mask of a stream")
    if m.as_long() & (FAILBIT | BADBIT) == (FAILBIT | BADBIT):
        raise CppThrow(RecV("iofailure", {}), Ty("rec", name=IOFAIL))


def io(en, l, what):
    """An operation which may fail."""
    if en.decide(en.fresh(B, what + ".fails")):
        io_failure(en, l)
        return False
    return True


def stream_call(en, q, m, fn, obj, args, e):
    first = obj if obj is not None else (args[0] if args else None)
    if not isinstance(first, (Loc, PtrV)):
        return NotImplemented
    x = en.load(first) if isinstance(first, Loc) else first
    if not (isinstance(x, RecV) and x.kind in ("iostream", "destroyed")):
        return NotImplemented
    l, v = stream_of(en, first)
    if m == "exceptions" and args:
        w = z3.simplify(en.val(args[0]))
        if not z3.is_int_value(w):
            raise Unsupported("exception mask of a stream")
        en.store(l.f("mask"), w)
        if en.decide(v.f["failed"]):
            io_failure(en, l)
        return None
    if m == "open":
        mode = z3.simplify(en.val(args[1])) if len(args) > 1 else IntVal(0)
        en.oblige(TAG, "the specified output file is opened", And(present("output-file"), str_of(en, args[0]) == str_of(en, en.unbox(T.seq_at(values("output-file"), 0), cstr_type(en)))), assume_after=False)
        # app = 1, ate = 2, in = 8 (GNU C++ library); trunc is implied by out
        en.oblige(TAG, "the output file is replaced and not extended", BoolVal(z3.is_int_value(mode) and not mode.as_long() & (1 | 2 | 8)), assume_after=False)
        if io(en, l, "opening"):
            en.store(l.f("open"), TRUE)
        return None
    if m in ("fail", "bad", "good", "operator!", "operator bool", "operator conv", "operator void *", "rdstate"):
        if m == "bad":
            return And(v.f["failed"], en.fresh(B, "bad"))
        return {"fail": v.f["failed"], "operator!": v.f["failed"], "good": Not(v.f["failed"])}.get(m, Not(v.f["failed"])) if m != "rdstate" else NotImplemented
    if m == "is_open":
        return v.f["open"]
    if m in ("flush", "close"):
        if m == "close" and not en.decide(v.f["open"]):
            io_failure(en, l)
            return None
        if en.decide(v.f["dirty"]):
            en.store(l.f("dirty"), FALSE)
            io(en, l, "flushing")
        if m == "close":
            en.store(l.f("open"), FALSE)
        return None if m == "close" else first
    f = en.val(args[-1]) if m == "operator<<" and args else None
    if isinstance(f, FnV) and f.fn is not None and f.fn["q"] == "std::flush":
        return stream_call(en, "", "flush", fn, first, [], e)
    if m.startswith("operator<<") or m in ("write", "put"):
        # messages
        if l == globals_of(en, "cout"):
            en.oblige(TAG, "nothing but code is written to the standard output if code is written to it", Or(present("help"), Not(present("generate")), present("output-file")), assume_after=False)
        elif l != globals_of(en, "cerr") and l != globals_of(en, "clog"):
            en.oblige(TAG, "nothing but code is written to the output file", FALSE, assume_after=False)
        return first
    return NotImplemented


@lib("strcmp", "std::strcmp")
def _(en, fn, obj, args, e):
    a, b = (str_of(en, x) for x in args)
    r = en.fresh(I, "order")
    en.assume((r == 0) == (a == b))
    return r


def cstr_type(en):
    return next(en.u.ty(k) for k, t in en.u.types.items() if k == "const char *")


_cli_call = cli_call


def cli_call(en, q, m, fn, obj, args, e):
    r = _cli_call(en, q, m, fn, obj, args, e)
    if r is not NotImplemented:
        return r
    r = stream_call(en, q, m, fn, obj, args, e)
    if r is not NotImplemented:
        return r
    v = en.load(obj) if isinstance(obj, Loc) else None
    if isinstance(v, RecV) and v.kind == "functions":
        return functions_method(en, m, obj, v, args, e)
    v = en.val(args[0]) if q == "std::vector::operator=" else None
    if isinstance(v, RecV) and v.kind == "elems":
        t = en.u.ty(e["obj"]["t"]).a[0]
        r = T.seq_empty
        for x in v.f.values():
            r = T.seq_push(r, en.box(conv(en, x, t), t))
        en.store(en.as_loc(obj), r)
        return obj
    if q == "CppUtilities::splitStringSimple" and len(args) in (2, 3):
        if len(args) == 3 and not en.must(en.val(args[2]) == -1):
            raise Unsupported("limited splitting")
        return split(en, str_of(en, args[0]), str_of(en, args[1]))
    if m == "what" and isinstance(en.val(obj), RecV) and en.val(obj).kind == "iofailure":
        return CharP(FALSE, T.s_cstr(en.fresh(Str, "what")))
    return NotImplemented


def split(en, s, by):
    return uf("ast:splitStringSimple", [s, by], SeqS)


_catches = LIB.get("catches")
EXCEPTIONS = {IOFAIL: ("std::system_error", "std::runtime_error", "std::exception"), "std::out_of_range": ("std::logic_error", "std::exception")}


@lib("catches")
def _(en, n1, n2):
    if n2 in EXCEPTIONS and active(en):
        return n1 in EXCEPTIONS[n2]
    return bool(_catches and _catches(en, n1, n2))


# ---- functions to call later -----------------------------------------------------------------------------------------------
@lib("std::cref", "std::ref")
def _(en, fn, obj, args, e):
    return RecV("refwrap", {"p": PtrV(False, en.as_loc(args[0]))})


@lib("std::bind")
def _(en, fn, obj, args, e):
    f = en.val(args[0])
    if not isinstance(f, FnV) or f.fn["kind"] != "method" or len(args) < 2:
        return NotImplemented
    return RecV("bound", {"fn": f, "args": RecV("elems", {str(i): en.val(a) for i, a in enumerate(args[1:])})})


@lib("ctor:std::function")
def _(en, fn, t, kind, args, e):
    v = en.val(args[0]) if args else None
    return v if isinstance(v, RecV) and v.kind == "bound" else None


def call_bound(en, v, args, e):
    a = list(v.f["args"].f.values())
    if args or not a:
        raise Unsupported("arguments of a bound function")
    obj = a[0].loc if isinstance(a[0], PtrV) else None
    if obj is None:
        raise Unsupported("object of a bound function")
    return en.call(v.f["fn"].fn, obj, [x.f["p"].loc if isinstance(x, RecV) and x.kind == "refwrap" else en.new_cell(x) for x in a[1:]], e)


@lib("std::function::operator()")
def _(en, fn, obj, args, e):
    v = en.val(obj)
    return call_bound(en, v, args, e) if isinstance(v, RecV) and v.kind == "bound" else NotImplemented


def map_of_functions(t):
    return t.k == "map" and len(t.a) > 1 and t.a[1].k == "rec" and t.a[1].x["name"] == "std::function"


_ctor_map = LIB["ctor:map"]


@lib("ctor:map")
def _(en, fn, t, kind, args, e):
    v = en.val(args[0]) if args else None
    if map_of_functions(t) and isinstance(v, RecV) and v.kind == "elems":
        return RecV("functions", {str(i): RecV("pair", {"first": str_of(en, x.f["first"]), "second": x.f["second"]}) for i, x in enumerate(v.f.values())}, t)
    return _ctor_map(en, fn, t, kind, args, e)


def functions_method(en, m, l, v, args, e):
    n = len(v.f)
    if m == "at":
        k = str_of(en, args[0])
        for i in range(n):
            if en.decide(k == v.f[str(i)].f["first"]):
                return l.f(str(i)).f("second")
        raise CppThrow(RecV("outofrange", {}), Ty("rec", name="std::out_of_range"))
    if m == "find":
        k = str_of(en, args[0])
        for i in range(n):
            if en.decide(k == v.f[str(i)].f["first"]):
                return IterV("functions", l, IntVal(i), v.ty)
        return IterV("functions", l, IntVal(n), v.ty)
    if m in ("count", "contains"):
        k = str_of(en, args[0])
        r = Or(*[k == x.f["first"] for x in v.f.values()])
        return r if m == "contains" else If(r, IntVal(1), IntVal(0))
    if m in ("begin", "end", "cbegin", "cend"):
        return IterV("functions", l, IntVal(0 if m.endswith("begin") else n), v.ty)
    if m in ("size", "empty"):
        return IntVal(n) if m == "size" else BoolVal(n == 0)
    return NotImplemented


@lib("iterlimit:functions")
def _(en, it):
    return IntVal(len(en.load(it.loc).f))


@lib("deref:functions")
def _(en, it):
    """Which entry it is is known or does not matter."""
    p = z3.simplify(it.pos)
    v = en.load(it.loc)
    en.oblige(TAG, "iterator is dereferenceable", And(it.pos >= 0, it.pos < len(v.f)))
    if z3.is_int_value(p):
        return it.loc.f(str(p.as_long()))
    return en.new_cell(RecV("pair", {"first": en.fresh(Str, "name"), "second": RecV("any function", {})}))


# ---- the code factory --------------------------------------------------------------------------------------------------------
gen_new = z3.Function("generator", Str, I, I, Val)


def generator_class(fn):
    return next(a["t"] for a in fn["targs"] if "t" in a)


def add_generator(en, fn, obj, args):
    """The factory gets another generator which uses it and the specified options (see verify_add_generator())."""
    l = en.as_loc(obj)
    x = gen_new(lit(generator_class(fn)), object_at(l), object_at(en.as_loc(args[0])))
    en.store(l.f("m_generators"), T.seq_push(en.load(l).f["m_generators"], x))
    return None


_box_uptr = LIB.get("box:uptr")


@lib("box:uptr")
def _(en, v, ty):
    """A generator as it has been constructed."""
    o = v.f["v"] if isinstance(v, RecV) and "v" in v.f else None
    if isinstance(o, RecV) and o.ty is not None and o.ty.x.get("name") in (JGEN, BGEN):
        ds = C.described(o)
        return z3.Function("constructed:" + ",".join(d.sort().name() for d in ds), *([d.sort() for d in ds] + [Val]))(*ds)
    return _box_uptr(en, v, ty) if _box_uptr else None


def verify_add_generator(u, f, unroll=0, opts=None):
    """addGenerator(): the generator constructed from the factory and the arguments is added at the end."""
    cls = generator_class(f)
    ctor = next((x for x in u.functions.values() if x["q"] == cls + "::(ctor)" and x.get("body") is not None and len(x["params"]) == 2), None)
    if ctor is None:
        raise Unsupported("no constructor of " + cls)
    en, init = start(u, cls.split("::")[-1], unroll, opts, GenContracts(), TAG)
    fac = make_factory(en)
    old = en.load(fac)
    ot = u.ty(cls + "::Options")
    o = en.new_cell(en.fresh_value(ot, "options"))

    def run():
        en.inline(f, fac, [o])
        en.enter(f)
        now = en.load(fac)
        g = RecV("uptr", {"has": TRUE, "v": en.run_ctor(ctor, u.ty(cls), [fac, o])})
        want = T.seq_push(old.f["m_generators"], LIB["box:uptr"](en, g, None))
        en.oblige(TAG, "the generator constructed from the factory and the options is added at the end", now.f["m_generators"] == want, assume_after=False)
        en.oblige(TAG, "the factory is not changed otherwise", And(*[eqv(now.f[n], old.f[n]) for n in now.f if n != "m_generators" and z3.is_expr(now.f[n])]), assume_after=False)
        en.reached += 1
    en.paths = en.explore(init, run)
    return [en]


# ---- main() ------------------------------------------------------------------------------------------------------------------
def add_pieces(en, v, p, k):
    """v with the first k pieces appended unless they are empty."""
    n = "options of one value"
    if n not in T.Folds.defs:
        view = en.o["view"]

        def step(v, p, k, o):
            x = en.unbox(T.seq_at(p, k), view)
            return If(slen(str_of(en, x)) != 0, T.seq_push(o, en.box(x, view)), o)
        T.deffold(n, [SeqS, SeqS], SeqS, lambda v, p: v, step)
    return T.Folds.defs[n](v, p, k)


def add_values(en, v, vals, k):
    n = "options of all values"
    if n not in T.Folds.defs:
        def step(v, vals, k, o):
            p = split(en, value_at(en, vals, k), lit(";"))
            return add_pieces(en, o, p, T.seq_len(p))
        T.deffold(n, [SeqS, SeqS], SeqS, lambda v, vals: v, step)
    return T.Folds.defs[n](v, vals, k)


def value_at(en, vals, k):
    return str_of(en, en.unbox(T.seq_at(vals, k), cstr_type(en)))


def generators_of(en, vals, k, fac, jopt, bopt):
    """The generators after the first k names."""
    n = "generators by name"
    if n not in T.Folds.defs:
        def step(vals, fac, jopt, bopt, k, o):
            s = value_at(en, vals, k)
            return If(s == lit("json"), T.seq_push(o, gen_new(lit(JGEN), fac, jopt)), If(s == lit("binary"), T.seq_push(o, gen_new(lit(BGEN), fac, bopt)), o))
        T.deffold(n, [SeqS, I, I, I], SeqS, lambda *a: T.seq_empty, step)
    return T.Folds.defs[n](vals, fac, jopt, bopt, k)


def known_names(en, vals, k):
    n = "generators are known"
    if n not in T.Folds.defs:
        T.deffold(n, [SeqS], B, lambda v: TRUE, lambda v, k, p: And(p, Or(value_at(en, v, k) == lit("json"), value_at(en, v, k) == lit("binary"))))
    return T.Folds.defs[n](vals, k)


def verify_main(u, f, unroll=0, opts=None):
    if unroll:
        # the folds of the specification over the options are not unfolded for lengths known from path conditions only; so
        # refutations are not confirmed this way but only by the harness, which runs the actual tool
        raise Unsupported("unrolled loops over the options")
    return main_scenario(u, f, unroll, opts)


def main_scenario(u, f, unroll, opts):
    def run_factory(en, fn, obj, args):
        """CodeFactory::run(): everything has been set up as specified; clang fails or not, and the output or not."""
        l = en.as_loc(obj)
        fac = en.load(l)
        d = cli(en)
        ob = lambda what, g: en.oblige(TAG, what, g if isinstance(g, z3.ExprRef) else BoolVal(bool(g)), assume_after=False)
        ob("clang is run once", "ran" not in d)
        ob("the path of the executable is passed", str_of(en, fac.f["m_applicationPath"]) == uf("ast:executable", [], Str))
        ob("the input files are those specified", en.load(fac.f["m_sourceFiles"].loc) == values("input-file"))
        want = If(present("clang-opt"), add_values(en, T.seq_empty, values("clang-opt"), T.seq_len(values("clang-opt"))), T.seq_empty)
        ob("all non-empty parts of the specified options are passed to clang in order", en.load(fac.f["m_clangOptions"].loc) == want)
        os, v = stream_of(en, fac.f["m_os"].loc)
        cout = os == globals_of(en, "cout")
        ob("code is written to the output file if one is specified and otherwise to the standard output", Not(present("output-file")) if cout else present("output-file"))
        ob("errors are turned into warnings iff requested", en.tobool(fac.f["m_errorResilient"]) == present("error-resilient"))
        ids = [([IntVal(-1)] + [object_at(x) for x in en.o["options"](cls)])[-1] for cls in (JGEN, BGEN)]
        given = values("generators")
        ob("all specified generators are used, and the one for JSON by default",
           If(present("generators"), And(known_names(en, given, T.seq_len(given)), fac.f["m_generators"] == generators_of(en, given, T.seq_len(given), object_at(l), *ids)),
              fac.f["m_generators"] == T.seq_push(T.seq_empty, gen_new(lit(JGEN), object_at(l), ids[0]))))
        r = en.fresh(B, "clang works")
        note(en, "ran", r)
        note(en, "os", os)
        en.store(os.f("dirty"), TRUE)
        if en.decide(v.f["open"]):
            io(en, os, "writing")
        else:
            io_failure(en, os)
        return r

    cs = GenContracts(run=CallContract("CodeFactory::run", run_factory), addGenerator=CallContract("CodeFactory::addGenerator", add_generator))
    en, init = start(u, "main", unroll, opts, cs, TAG)
    en.st.ghost["cli"] = ()
    for n in ("cout", "cerr", "clog"):
        note(en, ("global", n), en.new_cell(stream(True)))
    en.o["view"] = next(t for t in (u.ty(k) for k in list(u.types) if k.startswith("std::basic_string_view<char>")) if t.k == "strview")
    en.o["options"] = lambda cls: [Loc(c) for c, v in en.st.store.items() if isinstance(v, RecV) and v.ty is not None and v.ty.x.get("name") == cls + "::Options"]
    clang_opt, given = values("clang-opt"), values("generators")

    def extra(en, M, v0s, ks):
        out = []
        for i, v0 in enumerate(v0s):
            if v0 is None or isinstance(v0, (ProxyV, LamV, FnV, Uninit)):
                continue
            for j, t0 in enumerate(leaves(v0)):
                if t0.sort() != SeqS:
                    continue
                get = lambda vals, i=i, j=j: leaves(vals[i])[j]
                nm = "%d.%d" % (i, j)
                if ks:
                    p = split(en, value_at(en, clang_opt, ks[0]), lit(";"))
                    out.append((nm + "=options of the value", lambda vals, k, g=get, t0=t0, p=p: g(vals) == add_pieces(en, t0, p, k)))
                else:
                    out.append((nm + "=options of the values", lambda vals, k, g=get, t0=t0: g(vals) == add_values(en, t0, clang_opt, k)))
                    for c, v in en.st.store.items():
                        if isinstance(v, RecV) and v.ty is not None and v.ty.x.get("name") == FAC:
                            ids = [([IntVal(-1)] + [object_at(x) for x in en.o["options"](cls)])[-1] for cls in (JGEN, BGEN)]
                            out.append((nm + "=generators of %d" % c, lambda vals, k, g=get, c=c, ids=ids: g(vals) == generators_of(en, given, k, object_at(Loc(c)), *ids)))
        if not ks:
            out.append(("the generators are known", lambda vals, k: known_names(en, given, k)))
        return out
    en.o["extra_candidates"] = extra

    def run():
        argc = en.fresh_value(u.ty(f["params"][0]["t"]), "argc")
        r = None
        try:
            r = en.val(en.inline(f, None, [argc, IntVal(1)]))
            r = IntVal(0) if r is None else r
        except CppThrow as x:
            pass
        en.enter(f)
        d = cli(en)
        ob = lambda what, g: en.oblige(TAG, what, g if isinstance(g, z3.ExprRef) else BoolVal(bool(g)), assume_after=False)
        ob("no exception leaves main()", r is not None)
        if r is not None:
            idle = Or(present("help"), Not(present("generate")))
            if "ran" in d:
                s = en.load(d["os"])
                ob("nothing is generated if only help is wanted", Not(idle))
                good = Not(s.f["failed"])
                ob("success is only reported if the output has been written completely", Implies(r % 256 == 0, And(good, Not(s.f["dirty"]))))
                ob("success is only reported if the code has been generated", Implies(r % 256 == 0, d["ran"]))
                ob("success is reported if the code has been generated and written", Implies(And(d["ran"], good), r == 0))
            else:
                ob("code is generated unless only help is wanted or an error is reported", Or(And(idle, r == 0), And(Not(idle), r % 256 != 0)))
        en.reached += 1
    en.paths = en.explore(init, run)
    return [en]


def targets(u):
    out = []
    for f in u.functions.values():
        if f.get("body") is None:
            continue
        if f["q"] == "main":
            out.append((f, verify_main))
        elif f["q"] == FAC + "::addGenerator":
            out.append((f, verify_add_generator))
    return out
