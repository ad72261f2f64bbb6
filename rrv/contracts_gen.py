"""Contracts of the code generator (G01-G05): which classes are relevant, which program is emitted for them, what is handed on to whom."""
import copy
import z3
from z3 import And, Or, Not, If, Implies, IntVal, BoolVal
from .sym import *
from . import theory as T
from . import lib_clang as C
from .lib_std import LIB, lib, str_of, seq_append
from .engine import Engine, Loc, State, CppThrow
from .lib_clang import object_at, TR, I, B, uf, rlen, relem, Program, kinds, statements

NS = "ReflectiveRapidJSON::"
GEN, SER = NS + "CodeGenerator", NS + "SerializationCodeGenerator"
JGEN, BGEN = NS + "JsonSerializationCodeGenerator", NS + "BinarySerializationCodeGenerator"
CHAIN = {GEN: [GEN], SER: [GEN, SER], JGEN: [GEN, SER, JGEN], BGEN: [GEN, SER, BGEN]}
RC = SER + "::RelevantClass"
YES, NO, MAYBE = 0, 1, 2


# ---- vocabulary: the accessors the specifications talk about -----------------------------------------------------------
def acc(q, sort, *args):
    return uf(q, list(args), sort)


def qualified_name(d):
    return acc("clang::NamedDecl::getQualifiedNameAsString", Str, d)


def name_of(d):
    return acc("clang::NamedDecl::getName", Str, d)


def kind_of(d):
    return acc("clang::Decl::getKind", I, d)


def only_included(sm, d):
    loc = acc("clang::SourceRange::getBegin", I, acc("clang::Decl::getSourceRange", I, d))
    fid = acc("clang::SourceManager::getFileID", I, sm, acc("clang::SourceManager::getExpansionLoc", I, sm, loc))
    return And(sm != 0, fid != acc("clang::SourceManager::getMainFileID", I, sm))


def cxx_record(ty):
    return acc("clang::Type::getAsCXXRecordDecl", I, ty)


def derived_from(a, b):
    return acc("clang::CXXRecordDecl::isDerivedFrom", B, a, b)


def start(u, scenario, unroll, opts, contracts, tag):
    en = Engine(u, contracts, LIB, dict(opts or {}, unroll=unroll, gn=tag, sync=C.sync))
    en.scenario = scenario
    init = State()
    en.st = init
    en.trace, en.pos, en.alts, en.prefix_len = [], 0, [], 0
    en.reached = 0
    KINDS.update(kinds(u))
    # class invariant (established by the postconditions of addDeclaration and findRelevantClasses): records are not null
    rt = u.ty(RC)
    n = list(en.vinit(rt).f).index("record")
    T.RULES.setdefault("unbox<%s>.%d" % (rt.sig(), n), []).append(positive) if positive not in T.RULES.get("unbox<%s>.%d" % (rt.sig(), n), []) else None
    pt = next(u.ty(x["t"]) for x in u.records[RC]["fields"] if x["name"] == "record")
    T.RULES["unbox<%s>.0" % pt.sig()] = [positive]
    return en, init


def positive(t, c):
    return [t > 0]


def make_factory(en, os=None):
    u = en.u
    r = u.records[NS + "CodeFactory"]
    f = {}
    for x in r["fields"]:
        t = u.ty(x["t"])
        n = x["name"]
        if n == "m_os":
            f[n] = PtrV(False, os if os is not None else en.new_cell(RecV("stream", {})))
        elif t.k == "rec" and t.x["name"].endswith("ToolInvocation") or t.k == "uptr":
            f[n] = RecV("uptr", {"has": en.fresh(B, n + ".has"), "v": en.fresh(I, n)}, t)
        elif u.is_ref(x["t"]):
            f[n] = PtrV(False, en.new_cell(en.fresh_value(t, n)))
        else:
            f[n] = en.fresh_value(t, n)
    return en.new_cell(RecV("rec", f, u.ty(NS + "CodeFactory")))


def make_generator(en, cls, factory, known=True):
    """An arbitrary object of the generator class."""
    u = en.u
    f = {}
    for c in CHAIN[cls]:
        for x in u.records[c]["fields"]:
            t = u.ty(x["t"])
            n = x["name"]
            if t.k == "rec" and t.x["name"] == NS + "CodeFactory":
                f[n] = PtrV(False, factory)
            elif u.is_ref(x["t"]):
                f[n] = PtrV(False, en.new_cell(en.fresh_value(t, n)))
            else:
                f[n] = en.fresh_value(t, n)
    return en.new_cell(RecV("rec", f, u.ty(cls)))


def sm_after(en, fac, gen):
    """The source manager after lazy initialisation."""
    ci = en.load(fac).f["m_compilerInstance"]
    return If(ci != 0, acc("clang::CompilerInstance::getSourceManager", I, ci), en.load(gen).f["m_sourceManager"])


def rc_type(u):
    return u.ty(RC)


def rc_at(en, seq, k):
    return en.unbox(T.seq_at(seq, k), rc_type(en.u))


# ---- small functions ---------------------------------------------------------------------------------------------------
def verify_only_included(u, f, unroll=0, opts=None):
    en, init = start(u, "isOnlyIncluded", unroll, opts, None, "G03")
    fac = make_factory(en)
    g = make_generator(en, GEN, fac)
    d = en.fresh(I, "declaration")
    en.assume(d > 0)

    def run():
        r = en.tobool(en.val(en.inline(f, g, [d])))
        en.enter(f)
        en.oblige("G03", "a declaration is only included iff its expansion location is not in the main file", r == only_included(en.load(g).f["m_sourceManager"], d), assume_after=False)
        en.reached += 1
    en.paths = en.explore(init, run)
    return [en]


def verify_lazy(u, f, unroll=0, opts=None):
    en, init = start(u, "lazyInitializeSourceManager", unroll, opts, None, "G03")
    fac = make_factory(en)
    g = make_generator(en, GEN, fac)

    def run():
        want = sm_after(en, fac, g)
        old = en.load(g)
        en.inline(f, g, [])
        en.enter(f)
        en.oblige("G03", "the source manager of the compiler instance is used", en.load(g).f["m_sourceManager"] == want, assume_after=False)
        en.reached += 1
    en.paths = en.explore(init, run)
    return [en]


def inh(r, n):
    """The first direct base of r whose declaration is named n (0 if none), of the first k bases."""
    return inh_fold(r, n, rlen(acc("clang::CXXRecordDecl::bases", I, r)))


def inh_match(b, n):
    d = cxx_record(acc("clang::CXXBaseSpecifier::getType", I, b))
    return And(d != 0, qualified_name(d) == n)


def _inh_step(r, n, k, p):
    b = relem(acc("clang::CXXRecordDecl::bases", I, r), k)
    return If(p != 0, p, If(inh_match(b, n), b, IntVal(0)))


inh_fold = T.deffold("relevant_base", [I, Str], I, lambda r, n: IntVal(0), _inh_step)


@T.rule(inh_fold)
def _(t, c):
    """Once found the base stays the same (by induction: the step keeps a non-zero value)."""
    r, n, k = t.children()
    out = [t >= 0]
    for v in c.by_decl("relevant_base"):
        if v is not t and v.arg(0).eq(r) and v.arg(1).eq(n) and not v.eq(t):
            q = v.arg(2)
            out += [Implies(And(0 <= k, k <= q, t != 0), t == v), Implies(And(0 <= q, q <= k, v != 0), t == v)]
    return out


def verify_inherits(u, f, unroll=0, opts=None):
    en, init = start(u, "inheritsFromInstantiationOf", unroll, opts, None, "G03")
    r = en.fresh(I, "record")
    en.assume(r > 0)
    n = en.fresh(Str, "templateClass")

    def extra(en, M, v0s, ks):
        return [("none so far", lambda vals, k: inh_fold(r, T.s_cstr(n), k) == 0)]
    en.o["extra_candidates"] = extra
    en.o["fold_roles"] = lambda en, ks: [("base", lambda k: inh_fold(r, T.s_cstr(n), k))]
    en.o["touch"] = lambda en, ks, k: [inh_fold(r, T.s_cstr(n), k)]

    def run():
        x = en.val(en.inline(f, None, [r, CharP(FALSE, n)]))
        en.enter(f)
        if isinstance(x, PtrV) and z3.is_true(as_bool(x.null)):
            x = IntVal(0)
        en.oblige("G03", "the first direct base which is an instantiation of the template is returned", x == inh(r, T.s_cstr(n)), assume_after=False)
        en.reached += 1
    en.paths = en.explore(init, run)
    return [en]


# ---- which classes are relevant ------------------------------------------------------------------------------------------
def rc_value(en, qn, base, rec, rel):
    return RecV("rec", {"qualifiedName": qn, "relevantBase": base, "record": rec, "isRelevant": rel}, rc_type(en.u))


def rc_make(en, qn, base, rec, rel):
    """RelevantClass with the members the code has (further ones arbitrary)."""
    v = en.fresh_value(rc_type(en.u), "class")
    for n, x in (("qualifiedName", qn), ("relevantBase", base), ("record", rec), ("isRelevant", rel)):
        if n not in v.f:
            raise Unsupported("RelevantClass without %s" % n)
        v = v.with_(n, x)
    return v


def verify_add_declaration(u, f, unroll=0, opts=None):
    en, init = start(u, "addDeclaration", unroll, opts, None, "G03")
    K = kinds(u)
    fac = make_factory(en)
    g = make_generator(en, SER, fac)
    d = en.fresh(I, "declaration")
    en.assume(d > 0)

    def run():
        old = en.load(g)
        kd = kind_of(d)
        names = old.f["m_qualifiedNameOfAdaptionRecords"]
        defined = And(Or(kd == K["CXXRecord"], kd == K["ClassTemplateSpecialization"]), acc("clang::CXXRecordDecl::hasDefinition", B, d))
        adapted = And(kd == K["ClassTemplateSpecialization"], Not(names.null), qualified_name(d) == T.s_cstr(names.s))
        ta = acc("clang::ClassTemplateSpecializationDecl::getTemplateArgs", I, d)
        a0 = acc("clang::TemplateArgumentList::get", I, ta, IntVal(0))
        r = cxx_record(acc("clang::TemplateArgument::getAsType", I, a0))
        ok = And(acc("clang::TemplateArgumentList::size", I, ta) == 1, acc("clang::TemplateArgument::getKind", I, a0) == K["targ_Type"], r != 0)
        et = rc_type(u)
        recs = old.f["m_records"]
        ads = old.f["m_adaptionRecords"]
        en.inline(f, g, [d])
        en.enter(f)
        now = en.load(g)
        ty = next(x for x in u.records[SER]["fields"] if x["name"] == "m_records")
        rty = u.ty(ty["t"]).a[0]
        en.oblige("G03", "exactly the defined records which are no adaptions are noted", now.f["m_records"] == If(And(defined, Not(adapted)), T.seq_push(recs, en.box(d, rty)), recs), assume_after=False)
        en.oblige("G03", "exactly the adaptions of classes are noted, with the name of the adapted class",
                  now.f["m_adaptionRecords"] == If(And(defined, adapted, ok), T.seq_push(ads, en.box(rc_make(en, qualified_name(r), lit(""), d, IntVal(MAYBE)), et)), ads), assume_after=False)
        en.reached += 1
    en.paths = en.explore(init, run)
    return [en]


def adapted_by(en, ads, sm, qn):
    """OR over the adaptions: one for qn which is in the main file."""
    et = rc_type(en.u)
    if "adapted_by" not in T.Folds.defs:
        def step(ads, sm, qn, k, p):
            a = en.unbox(T.seq_at(ads, k), et)
            return Or(p, And(Not(only_included(sm, a.f["record"])), a.f["qualifiedName"] == qn))
        monotone(T.deffold("adapted_by", [SeqS, I, Str], B, lambda *a: FALSE, step))
    f = T.Folds.defs["adapted_by"]
    return lambda k: f(ads, sm, qn, k)


def monotone(f):
    """F is a disjunction over 0..k-1: once true it stays true."""
    n = f.name()

    @T.rule(f)
    def _(t, c):
        *a, k = t.children()
        out = []
        for v in c.by_decl(n):
            *b, q = v.children()
            if v is not t and not v.eq(t) and all(x.eq(y) for x, y in zip(a, b)):
                out += [Implies(And(0 <= k, k <= q, t), v), Implies(And(0 <= q, q <= k, v), t)]
        return out
    return f


def requested(en, values, qn):
    """OR over the class names given on the command line."""
    ct = None
    for t in en.u.types:
        if en.u.types[t]["k"] == "ptr" and en.u.ty(t).k == "cstr":
            ct = en.u.ty(t)
            break
    if "requested" not in T.Folds.defs:
        def step(vs, qn, k, p):
            x = en.unbox(T.seq_at(vs, k), ct)
            return Or(p, T.s_cstr(x.s) == qn)
        monotone(T.deffold("requested", [SeqS, Str], B, lambda *a: FALSE, step))
    f = T.Folds.defs["requested"]
    return lambda k: f(values, qn, k)


def base_spec(en, old, qn, rec, base):
    """(relevance, relevantBase) according to SerializationCodeGenerator::computeRelevantClass."""
    sm = old.f["m_sourceManager"]
    ads = old.f["m_adaptionRecords"]
    ad = adapted_by(en, ads, sm, qn)(T.seq_len(ads))
    b = inh(rec, T.s_cstr(old.f["m_qualifiedNameOfRecords"].s))
    complete = acc("clang::TagDecl::isCompleteDefinition", B, rec)
    ctx = acc("clang::Decl::getASTContext", I, rec)
    rel = If(Not(complete), IntVal(NO), If(ad, IntVal(YES), If(only_included(sm, rec), IntVal(NO), If(b != 0, IntVal(YES), IntVal(MAYBE)))))
    named = And(complete, Not(ad), Not(only_included(sm, rec)), b != 0)
    return rel, named, b, ctx


def verify_relevant_class(u, f, unroll=0, opts=None):
    cls = f["q"].rsplit("::", 1)[0]
    en, init = start(u, "computeRelevantClass", unroll, opts, GenContracts(), "G03")
    fac = make_factory(en)
    g = make_generator(en, cls, fac)
    qn = en.fresh(Str, "qualifiedName")
    rec = en.fresh(I, "record")
    en.assume(rec > 0)
    rc = rc_make(en, qn, lit(""), rec, IntVal(MAYBE))
    rl = en.new_cell(rc)
    old = en.load(g)
    en.assume(And(Not(old.f["m_qualifiedNameOfRecords"].null), *[rlen(x) >= 0 for x in ()]))
    sm, ads = old.f["m_sourceManager"], old.f["m_adaptionRecords"]
    ad = adapted_by(en, ads, sm, qn)
    en.o["extra_candidates"] = lambda en, M, v0s, ks: [("not adapted so far", lambda vals, k: Not(ad(k)))] + (
        [("not requested so far", lambda vals, k: Not(rq(k)))] if cls != SER else [])
    en.o["fold_roles"] = lambda en, ks: [("adapted", ad)] + ([("requested", rq)] if cls != SER else [])
    en.o["touch"] = lambda en, ks, k: [ad(k)] + ([rq(k)] if cls != SER else [])
    if cls != SER:
        opt = en.load(old.f["m_options"].loc)
        arg = opt.f["additionalClassesArg"]
        values = acc("CppUtilities::Argument::values", SeqS, arg, IntVal(0))
        rq = requested(en, values, qn)
        present = acc("CppUtilities::Argument::isPresent", B, arg)

    def run():
        en.inline(f, g, [rl])
        en.enter(f)
        now = en.load(rl)
        rel, named, b, ctx = base_spec(en, old, qn, rec, lit(""))
        if cls != SER:
            rel = If(rel == MAYBE, If(And(present, rq(T.seq_len(values))), IntVal(YES), IntVal(MAYBE)), rel)
        en.oblige("G03", "a class is relevant iff it is complete and adapted, derived from the serializable base or requested, and not just included", now.f["isRelevant"] == rel, assume_after=False)
        en.oblige("G03", "the class itself is left alone", And(now.f["qualifiedName"] == qn, now.f["record"] == rec), assume_after=False)
        if cls == SER:
            nb = now.f["relevantBase"]
            en.oblige("G02", "the relevant base is named iff the class derives from it", If(named, full_name_of(nb, acc("clang::CXXBaseSpecifier::getType", I, b)), nb == lit("")), assume_after=False)
        en.oblige("G03", "the generator itself is left alone", eqv(en.load(g), old), assume_after=False)
        en.reached += 1
    en.paths = en.explore(init, run)
    return [en]


def full_name_of(s, ty):
    """s is a fully qualified name of the type ty."""
    return Or(s == C.fqname(ty, TRUE), s == C.fqname(ty, FALSE))


relv = z3.Function("relevance", Str, I, I)
rbas = z3.Function("relevant_base_name", Str, I, Str)


@T.rule(relv)
def _(t, c):
    return [t >= 0, t <= 2]


def compute_contract(en, fn, obj, args):
    """computeRelevantClass() of the generator at hand: a function of the record and its name."""
    l = args[0]
    v = en.load(l)
    en.oblige("G03", "classes are judged from scratch", And(v.f["isRelevant"] == MAYBE, v.f["relevantBase"] == lit("")))
    en.store(l, v.with_("isRelevant", relv(v.f["qualifiedName"], v.f["record"])).with_("relevantBase", rbas(v.f["qualifiedName"], v.f["record"])))
    return None


def relevant_classes(en, recs):
    """The relevant ones among the first k records, in order."""
    rt = rc_type(en.u)
    pt = next(en.u.ty(x["t"]) for x in en.u.records[SER]["fields"] if x["name"] == "m_records").a[0]
    if "relevant_classes" not in T.Folds.defs:
        def step(recs, k, p):
            r = en.unbox(T.seq_at(recs, k), pt)
            n = qualified_name(r)
            return If(relv(n, r) == YES, T.seq_push(p, en.box(rc_value(en, n, rbas(n, r), r, IntVal(YES)), rt)), p)
        T.deffold("relevant_classes", [SeqS], SeqS, lambda *a: T.seq_empty, step)
    f = T.Folds.defs["relevant_classes"]
    return lambda k: f(recs, k)


def verify_find_classes(u, f, unroll=0, opts=None):
    en, init = start(u, "findRelevantClasses", unroll, opts, GenContracts(computeRelevantClass=CallContract("computeRelevantClass", compute_contract)), "G03")
    fac = make_factory(en)
    g = make_generator(en, SER, fac)
    old = en.load(g)
    recs = old.f["m_records"]
    fold = relevant_classes(en, recs)
    en.o["fold_roles"] = lambda en, ks: [("relevant", fold)]

    def run():
        r = en.val(en.inline(f, g, []))
        en.enter(f)
        en.oblige("G03", "exactly the relevant classes are found, each once and in order", r == fold(T.seq_len(recs)), assume_after=False)
        en.oblige("G03", "the generator itself is left alone", eqv(en.load(g), old), assume_after=False)
        en.reached += 1
    en.paths = en.explore(init, run)
    return [en]


def is_class_pointer(ty):
    return ty.k == "ptr" and ty.a and ty.a[0].k == "rec" and ty.a[0].x["name"] == RC


@lib("box:ptr")
def _(en, v, ty):
    """A pointer to a RelevantClass is represented by what it points to; it must point into a container which outlives it."""
    if not is_class_pointer(ty):
        return None
    if not (isinstance(v, PtrV) and z3.is_false(as_bool(v.null))):
        raise Unsupported("null pointers to classes in a container")
    if v.loc.path and v.loc.path[0][0] == "boxed":
        return v.loc.path[0][1]
    if len(v.loc.path) != 1 or v.loc.path[0][0] != "at" or v.loc.cell not in en.o.get("class_cells", ()):
        en.oblige(en.o.get("gn", "GN"), "pointers to classes refer to the list of relevant classes", FALSE)
    return T.seq_at(en.st.store[v.loc.cell], v.loc.path[0][1])


@lib("unbox:ptr")
def _(en, b, ty):
    if not is_class_pointer(ty):
        return None
    return PtrV(False, en.new_cell(en.unbox(b, ty.a[0])))


_baseinit = LIB.get("baseinit")


@lib("baseinit")
def _(en, f, t, i, cell, fr):
    if t.x.get("name") in CHAIN:
        v = en.rv(i["x"], fr)
        x = en.load(cell)
        for n, y in v.f.items():
            x = x.with_(n, y)
        en.store(cell, x)
    elif _baseinit:
        _baseinit(en, f, t, i, cell, fr)


def covered_by(en, rec, seq, r):
    """OR over the first k classes: a proper base of rec which is derived from r in turn."""
    rt = rc_type(en.u)
    if "covered_by" not in T.Folds.defs:
        def step(rec, seq, r, k, p):
            x = en.unbox(T.seq_at(seq, k), rt).f["record"]
            return Or(p, And(x != rec, x != r, derived_from(rec, x), derived_from(x, r)))
        monotone(T.deffold("covered_by", [I, SeqS, I], B, lambda *a: FALSE, step))
    f = T.Folds.defs["covered_by"]
    return lambda k: f(rec, seq, r, k)


def relevant_bases(en, rec, seq, n):
    """Those among the first k classes which rec is derived from, except bases of other ones."""
    rt = rc_type(en.u)
    if "relevant_bases" not in T.Folds.defs:
        def step(rec, seq, k, p):
            o = T.seq_at(seq, k)
            r = en.unbox(o, rt).f["record"]
            return If(And(r != rec, derived_from(rec, r), Not(covered_by(en, rec, seq, r)(T.seq_len(seq)))), T.seq_push(p, o), p)
        T.deffold("relevant_bases", [I, SeqS], SeqS, lambda *a: T.seq_empty, step)
    return T.Folds.defs["relevant_bases"](rec, seq, n)


def verify_find_bases(u, f, unroll=0, opts=None):
    en, init = start(u, "findRelevantBaseClasses", unroll, opts, GenContracts(), "G04")
    rt = rc_type(u)
    c = en.fresh_value(rt, "class")
    en.assume(c.f["record"] > 0)
    cl = en.new_cell(c)
    seq = en.fresh(SeqS, "classes")
    sl = en.new_cell(seq)

    def cov(ks):
        return covered_by(en, c.f["record"], seq, en.unbox(T.seq_at(seq, ks[0]), rt).f["record"])
    en.o["fold_roles"] = lambda en, ks: [("bases", lambda k: relevant_bases(en, c.f["record"], seq, k))] if not ks else [("covered", cov(ks))]
    en.o["extra_candidates"] = lambda en, M, v0s, ks: [("not covered so far", lambda vals, k: Not(cov(ks)(k)))] if ks else []
    en.o["exit_candidates"] = lambda en, M, v0s, ks: [("%d covered" % i, lambda vals, k, i=i: vals[i] == cov(ks)(T.seq_len(seq))) for i, v in enumerate(v0s)
                                                      if isinstance(v, z3.ExprRef) and v.sort() == B] if ks else []
    en.o["touch"] = lambda en, ks, k: [cov(ks)(k)] if ks else []
    en.o["class_cells"] = (sl.cell,)

    def run():
        r = en.val(en.inline(f, None, [cl, sl]))
        en.enter(f)
        en.oblige("G04", "exactly the relevant classes the class is directly or indirectly derived from are found, each once and without bases of other ones",
                  r == relevant_bases(en, c.f["record"], seq, T.seq_len(seq)), assume_after=False)
        en.reached += 1
    en.paths = en.explore(init, run)
    return [en]


def verify_gen_ctor(u, f, unroll=0, opts=None):
    cls = f["q"].rsplit("::", 1)[0]
    en, init = start(u, "constructor", unroll, opts, GenContracts(), "G03")
    fac = make_factory(en)
    kind = "Json" if cls == JGEN else "Binary"

    def run():
        v = en.run_ctor(f, u.ty(cls), [fac, en.new_cell(en.fresh_value(u.ty(cls + "::Options"), "options"))])
        en.enter(f)
        a, b = v.f["m_qualifiedNameOfRecords"], v.f["m_qualifiedNameOfAdaptionRecords"]
        en.oblige("G03", "classes deriving from the serializable template are looked for", And(Not(a.null), T.s_cstr(a.s) == lit(NS + kind + "Serializable")), assume_after=False)
        en.oblige("G03", "specializations of the adaption template are looked for", And(Not(b.null), T.s_cstr(b.s) == lit(NS + "Adapted" + kind + "Serializable")), assume_after=False)
        en.oblige("G03", "a new generator has no records and no source manager", And(v.f["m_records"] == T.seq_empty, v.f["m_adaptionRecords"] == T.seq_empty, v.f["m_sourceManager"] == 0), assume_after=False)
        en.reached += 1
    en.paths = en.explore(init, run)
    return [en]


# ---- the emitted program -------------------------------------------------------------------------------------------------
def friends_fold(name):
    """OR over the first k friend declarations of the record: a function called `name` is a friend."""
    n = "befriends{%s}" % name
    if n not in T.Folds.defs:
        def step(rec, k, p):
            d = acc("clang::FriendDecl::getFriendDecl", I, relem(acc("clang::CXXRecordDecl::friends", I, rec), k))
            return Or(p, And(d != 0, kind_of(d) == KINDS["Function"], qualified_name(d) == lit(name)))
        monotone(T.deffold(n, [I], B, lambda *a: FALSE, step))
    f = T.Folds.defs[n]
    return lambda rec, k: f(rec, k)


KINDS = {}


def decide_never(c):
    c = z3.simplify(c)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    raise Unsupported("condition in a specification")


def emit(ch, t, pieces, cond=None):
    """The trace t of the channel ch extended by the given pieces of program text."""
    p = Program(t, t, t)
    p.add(decide_never, pieces, cond)
    return p.ch[ch]


def fold_emit(name, sorts, ch, step):
    """A fold over emitted programs; the first argument is the program emitted before."""
    n = "%s/%s" % (name, ch)
    if n not in T.Folds.defs:
        T.deffold(n, [TR] + sorts, TR, lambda *a: a[0], step)
    return T.Folds.defs[n]


class Format:
    """Program text of one of the formats."""
    json = dict(
        ns="JsonReflector", push="push", pull="pull",
        push_head=lambda v, q: ["template <> ", v, " void push<::", q, ">(const ::", q, " &reflectable, ::RAPIDJSON_NAMESPACE::Value::Object &value, ::RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator) {"],
        pull_head=lambda v, q: ["template <> ", v, " void pull<::", q, ">(::", q, " &reflectable, const ::RAPIDJSON_NAMESPACE::GenericValue<::RAPIDJSON_NAMESPACE::UTF8<char>>::ConstObject &value, "
                                "JsonDeserializationErrors *errors) {"],
        push_base=lambda q: ["push(static_cast<const ::", q, " &>(reflectable), value, allocator);"],
        pull_base=lambda q: ["pull(static_cast<::", q, " &>(reflectable), value, errors);"],
        push_member=lambda n: ["push(reflectable.", n, ", \"", n, "\", value, allocator);"],
        pull_member=lambda n: ["pull(reflectable.", n, ", \"", n, "\", value, errors);"],
    )
    binary = dict(
        ns="BinaryReflector", push="writeCustomType", pull="readCustomType",
        push_head=lambda v, q: ["template <> ", v, " void writeCustomType<::", q, ">(BinarySerializer &serializer, const ::", q, " &customObject, BinaryVersion version) {"],
        pull_head=lambda v, q: ["template <> ", v, " BinaryVersion readCustomType<::", q, ">(BinaryDeserializer &deserializer, ::", q, " &customObject, BinaryVersion version) {"],
        push_base=lambda q: ["serializer.write(static_cast<const ::", q, " &>(customObject), version);"],
        pull_base=lambda q: ["deserializer.read(static_cast<::", q, " &>(customObject), version);"],
        push_member=lambda n: ["serializer.write(customObject.", n, ", version);"],
        pull_member=lambda n: ["deserializer.read(customObject.", n, ", version);"],
    )


def is_const(fd):
    return acc("clang::QualType::isConstant", B, acc("clang::ValueDecl::getType", I, fd), acc("clang::Decl::getASTContext", I, fd))


def is_public(fd):
    return acc("clang::Decl::getAccess", I, fd) == KINDS["access_public"]


class GenSpec:
    """The program a generator has to emit (one term per channel)."""

    def __init__(self, en, fmt, vis):
        self.en, self.fmt, self.F, self.vis = en, fmt, getattr(Format, fmt), vis
        self.rt = rc_type(en.u)
        self.pushf, self.pullf = [friends_fold(NS + self.F["ns"] + "::" + self.F[x]) for x in ("push", "pull")]
        self.tag = "G01" if fmt == "json" else "G02"
        self.key = fmt + ("" if isinstance(vis, str) else "+visibility")

    def visargs(self):
        return [] if isinstance(self.vis, str) else [self.vis]

    def friends(self, rec):
        return acc("clang::CXXRecordDecl::friends", I, rec)

    def private(self, d, rec):
        return (self.pushf, self.pullf)[d == "pull"](rec, rlen(self.friends(rec)))

    def bases(self, d, t, rec, seq, k):
        """Channel b: the calls for the first k relevant bases."""
        text = self.F[d + "_base"]
        rt, en = self.rt, self.en
        f = fold_emit("%s:%s bases" % (self.fmt, d), [SeqS], "b", lambda t, bs, k, p: emit("b", p, text(en.unbox(T.seq_at(bs, k), rt).f["qualifiedName"])))
        return f(t, relevant_bases(en, rec, seq, T.seq_len(seq)), k)

    def all_bases(self, d, t, rec, seq):
        return self.bases(d, t, rec, seq, T.seq_len(relevant_bases(self.en, rec, seq, T.seq_len(seq))))

    def member_text(self, d, fd):
        return self.F[d + "_member"](name_of(fd))

    def members(self, d, t, rec, private, k):
        """Channel m: the first k members (JSON) or declarations (binary)."""
        if self.fmt == "json":
            def step(t, rec, private, k, p):
                fd = relem(acc("clang::RecordDecl::fields", I, rec), k)
                g = Or(private, is_public(fd))
                if d == "pull":
                    g = And(g, Not(is_const(fd)))
                return If(g, emit("m", p, self.member_text(d, fd)), p)
        else:
            def step(t, rec, private, k, p):
                fd = relem(acc("clang::DeclContext::decls", I, rec), k)
                g = And(kind_of(fd) == KINDS["Field"], Not(is_const(fd)), Or(private, is_public(fd)))
                return If(g, emit("m", p, self.member_text(d, fd), (mk_as(rec, k), mk_un(rec, k))), p)
        return fold_emit("%s:%s members" % (self.fmt, d), [I, B], "m", step)(t, rec, private, k)

    def count(self, rec):
        return rlen(acc("clang::RecordDecl::fields" if self.fmt == "json" else "clang::DeclContext::decls", I, rec))

    def all_members(self, d, t, rec):
        return self.members(d, t, rec, self.private(d, rec), self.count(rec))

    def before_members(self, d, t, c, ch):
        """From the head of the function to the first member (without the calls for bases)."""
        q = c.f["qualifiedName"]
        t = emit(ch, t, self.F[d + "_head"](self.vis, q))
        return t

    def class_m(self, t, c):
        rec, q = c.f["record"], c.f["qualifiedName"]
        e = lambda t, *x: emit("m", t, x)
        if self.fmt == "json":
            t = e(t, *self.F["push_head"](self.vis, q))
            t = e(self.all_members("push", t, rec), "}")
            p = e(t, *self.F["pull_head"](self.vis, q))
            p = e(p, "const char *previousRecord = nullptr; if (errors) { previousRecord = errors->currentRecord; errors->currentRecord = \"", q, "\"; }")
            p = e(self.all_members("pull", p, rec), "if (errors) { errors->currentRecord = previousRecord; } }")
        else:
            t = e(t, *self.F["push_head"](self.vis, q))
            t = self.version("push", t, c)
            t = e(self.all_members("push", t, rec), "}")
            p = e(t, *self.F["pull_head"](self.vis, q))
            p = self.version("pull", p, c)
            p = e(self.all_members("pull", p, rec), "return version; }")
        return If(acc("clang::CXXRecordDecl::hasDefaultConstructor", B, rec), p, t)

    def version(self, d, t, c):
        if d == "push":
            v = ["using V = Versioning<", c.f["relevantBase"], ">; if constexpr (V::enabled) { serializer.writeVariableLengthUIntBE(V::applyDefault(version)); }"]
        else:
            v = ["using V = Versioning<", c.f["relevantBase"], ">; if constexpr (V::enabled) { V::assertVersion(version = deserializer.readVariableLengthUIntBE(), \"",
                 c.f["qualifiedName"], "\"); }"]
        return If(slen(c.f["relevantBase"]) != 0, emit("m", t, v), t)

    def class_b(self, t, c, seq):
        rec, q = c.f["record"], c.f["qualifiedName"]
        t = emit("b", t, self.F["push_head"](self.vis, q))
        t = self.all_bases("push", t, rec, seq)
        p = emit("b", t, self.F["pull_head"](self.vis, q))
        p = self.all_bases("pull", p, rec, seq)
        return If(acc("clang::CXXRecordDecl::hasDefaultConstructor", B, rec), p, t)

    def class_h(self, t, c):
        return emit("h", t, self.F["push_head"](self.vis, c.f["qualifiedName"]))

    def classes(self, ch, t, seq, k):
        spec = self

        def step(*a):
            if len(a) == 5:
                t, vis, seq, k, p = a
            else:
                t, seq, k, p = a
            self = copy.copy(spec)
            self.vis = vis if len(a) == 5 else ""
            c = self.en.unbox(T.seq_at(seq, k), self.rt)
            return self.class_m(p, c) if ch == "m" else self.class_b(p, c, seq) if ch == "b" else self.class_h(p, c)
        vs = self.visargs()
        return fold_emit(self.key + ": classes", [v.sort() for v in vs] + [SeqS], ch, step)(*([t] + vs + [seq, k]))

    def program(self, ch, t, seq):
        t = emit(ch, t, ["namespace ReflectiveRapidJSON { namespace " + self.F["ns"] + " {"])
        t = self.classes(ch, t, seq, T.seq_len(seq))
        return emit(ch, t, ["} }"])


# version markers: the value of the two versions in front of the k-th declaration
def marker_step(as_, un, d):
    n = name_of(d)
    isas = uf("str:starts_with", [n, lit("rrjAsOfVersion")], B)
    isun = uf("str:starts_with", [n, lit("rrjUntilVersion")], B)
    ok = And(kind_of(d) == KINDS["Var"], lit_ok(d))
    v = lit_val(d)
    a = If(And(ok, isas), v, If(And(ok, isun), If(v < as_, IntVal(0), as_), as_))
    b = If(And(ok, isas), If(v > un, IntVal(0), un), If(And(ok, isun), v, un))
    return a, b


lit_ok = z3.Function("initialized_with_integer_literal", I, B)
lit_val = z3.Function("value_of_first_integer_literal", I, I)


@T.rule(lit_val)
def _(t, c):
    return [t >= 0, t < 1 << 64]


def _mk(i):
    def step(rec, k, p):
        d = relem(acc("clang::DeclContext::decls", I, rec), k)
        return marker_step(mk_as(rec, k), mk_un(rec, k), d)[i]
    return step


mk_as = T.deffold("as_of_version", [I], I, lambda r: IntVal(0), _mk(0))
mk_un = T.deffold("until_version", [I], I, lambda r: IntVal(0), _mk(1))


def find_classes_contract(sm):
    def apply(en, fn, obj, args):
        en.oblige("G03", "the source manager is available before classes are judged", en.load(obj).f["m_sourceManager"] == sm)
        r = en.o["classes"]
        l = en.new_cell(r)
        return l
    return CallContract("findRelevantClasses", apply)


def find_bases_contract(en, fn, obj, args):
    c, seq = en.load(args[0]), en.load(args[1])
    return relevant_bases(en, c.f["record"], seq, T.seq_len(seq))


def marker_contract(en, fn, obj, args):
    d = en.val(args[0])
    v = en.load(obj)
    a, b = marker_step(v.f["asOfVersion"], v.f["untilVersion"], d)
    en.store(obj, v.with_("asOfVersion", z3.simplify(a)).with_("untilVersion", z3.simplify(b)))
    return kind_of(d) == KINDS["Var"]


def lit_stmt(st):
    """st is an integer literal of at most 64 bits; its value."""
    v = uf("evaluated", [st], I)
    x = acc("clang::APValue::getInt", I, v)
    return And(acc("clang::Stmt::getStmtClass", I, st) == KINDS["stmt_IntegerLiteral"], acc("clang::APValue::isInt", B, v), acc("llvm::APInt::getActiveBits", I, x) <= 64), \
        acc("llvm::APInt::getZExtValue", I, x)


RETRIEVE = NS + "RetrieveIntegerLiteralFromDeclaratorDecl"
TRACK = NS + "MemberTracking"


def verify_visit_stmt(u, f, unroll=0, opts=None):
    en, init = start(u, "VisitStmt", unroll, opts, GenContracts(), "G02")
    st = en.fresh(I, "statement")
    en.assume(st > 0)
    r = u.records[RETRIEVE]
    o = en.new_cell(RecV("rec", {x["name"]: PtrV(False, en.new_cell(en.fresh_value(u.ty(x["t"]), x["name"]))) if u.is_ref(x["t"]) else en.fresh_value(u.ty(x["t"]), x["name"]) for x in r["fields"]}, u.ty(RETRIEVE)))

    def run():
        old = en.load(o)
        x = en.val(en.inline(f, o, [st]))
        en.enter(f)
        now = en.load(o)
        ok, v = lit_stmt(st)
        en.oblige("G02", "the search ends at the first integer literal which fits 64 bits", x == Not(ok), assume_after=False)
        en.oblige("G02", "its value is noted", And(now.f["success"] == Or(old.f["success"], ok), now.f["res"] == If(ok, v, old.f["res"])), assume_after=False)
        en.reached += 1
    en.paths = en.explore(init, run)
    return [en]


def verify_retrieve_ctor(u, f, unroll=0, opts=None):
    en, init = start(u, "constructor", unroll, opts, GenContracts(), "G02")
    c = en.fresh(I, "context")

    def run():
        v = en.run_ctor(f, u.ty(RETRIEVE), [en.new_cell(c)])
        en.enter(f)
        en.oblige("G02", "nothing has been found initially", And(Not(v.f["success"]), v.f["res"] == 0), assume_after=False)
        en.reached += 1
    en.paths = en.explore(init, run)
    return [en]


def traverse_contract(en, fn, obj, args):
    """RecursiveASTVisitor::TraverseDecl (assumed): visits the statements of the declaration until VisitStmt() returns false."""
    d = en.val(args[0])
    v = en.load(obj)
    if v.f.get("success") is None or v.f.get("res") is None:
        raise Unsupported("visitor")
    en.oblige("G02", "a visitor is used for one declaration", Not(v.f["success"]))
    en.store(obj, v.with_("success", lit_ok(d)).with_("res", If(lit_ok(d), lit_val(d), v.f["res"])))
    return Not(lit_ok(d))


def verify_marker(u, f, unroll=0, opts=None):
    en, init = start(u, "checkForVersionMarker", unroll, opts, GenContracts(TraverseDecl=CallContract("TraverseDecl", traverse_contract)), "G02")
    d = en.fresh(I, "declaration")
    en.assume(d > 0)
    o = en.new_cell(en.fresh_value(u.ty(TRACK), "tracking"))

    def run():
        old = en.load(o)
        x = en.val(en.inline(f, o, [d]))
        en.enter(f)
        now = en.load(o)
        a, b = marker_step(old.f["asOfVersion"], old.f["untilVersion"], d)
        en.oblige("G02", "exactly the static members are recognised", x == (kind_of(d) == KINDS["Var"]), assume_after=False)
        en.oblige("G02", "a version marker changes the versions", And(now.f["asOfVersion"] == a, now.f["untilVersion"] == b), assume_after=False)
        en.oblige("G02", "only the versions are changed", And(*[eqv(v, old.f[n]) for n, v in now.f.items() if n not in ("asOfVersion", "untilVersion")]), assume_after=False)
        en.reached += 1
    en.paths = en.explore(init, run)
    return [en]


def verify_generate(u, f, unroll=0, opts=None):
    return verify_generated(u, f, "visibility", unroll, opts)


def verify_generate_default(u, f, unroll=0, opts=None):
    return verify_generated(u, f, "default visibility", unroll, opts)


def verify_generated(u, f, scenario, unroll, opts):
    cls = f["q"].rsplit("::", 1)[0]
    fmt = "json" if cls == JGEN else "binary"
    tag = "G01" if fmt == "json" else "G02"
    engines = []
    cs = {"findRelevantClasses": None, "findRelevantBaseClasses": CallContract("findRelevantBaseClasses", find_bases_contract),
          "checkForVersionMarker": CallContract("checkForVersionMarker", marker_contract)}
    en, init = start(u, scenario, unroll, opts, GenContracts(**cs), tag)
    engines.append(en)
    fac = make_factory(en)
    g = make_generator(en, cls, fac)
    old = en.load(g)
    en.contracts.k["findRelevantClasses"] = find_classes_contract(sm_after(en, fac, g))
    seq = en.o["classes"] = en.fresh(SeqS, "classes")
    arg = en.load(old.f["m_options"].loc).f["visibilityArg"]
    null = acc("CppUtilities::Argument::firstValue.null", B, arg)
    en.assume(null if scenario != "visibility" else Not(null))
    vis = "" if scenario != "visibility" else T.s_cstr(acc("CppUtilities::Argument::firstValue.s", Str, arg))
    sp = GenSpec(en, fmt, vis)
    os = C.new_output(en)
    out0 = en.load(os)
    generate_hints(en, sp, seq, os)

    def run(en=en, g=g, os=os, sp=sp, seq=seq, out0=out0, old=old):
        en.inline(f, g, [os])
        C.sync(en)
        en.enter(f)
        now = en.load(os)
        n = T.seq_len(seq)
        for ch, t in (("m", tag), ("b", "G04"), ("h", "G03")):
            what = {"m": "the members of every relevant class are processed as specified", "b": "the bases of every relevant class are processed as specified",
                    "h": "code is emitted for every relevant class exactly once"}[ch]
            en.oblige(t, what, now.f[ch] == If(n == 0, out0.f[ch], sp.program(ch, out0.f[ch], seq)), assume_after=False)
        en.oblige(tag, "all version conditions are closed", Not(now.f["open"]), assume_after=False)
        en.oblige("G03", "the records of the generator are left alone", eqv(en.load(g).f["m_records"], old.f["m_records"]), assume_after=False)
        en.reached += 1
    en.paths = en.explore(init, run)
    return engines


def generate_hints(en, sp, seq, os):
    """Candidates for the invariants of the loops (kept or dropped by inference)."""
    def outer(ks):
        c = en.unbox(T.seq_at(seq, ks[0]), sp.rt)
        return c, c.f["record"]

    def extra(en, M, v0s, ks):
        out = []
        ints, bools = [], []
        if ks:
            c, rec = outer(ks)
            for d, fr in (("push", sp.pushf), ("pull", sp.pullf)):
                out.append(("no friend " + d, lambda vals, k, fr=fr, rec=rec: Not(fr(rec, k))))
        for i, v0 in enumerate(v0s):
            if v0 is None or isinstance(v0, (ProxyV, LamV, FnV, Uninit)):
                continue
            for j, t0 in enumerate(leaves(v0)):
                get = lambda vals, i=i, j=j: leaves(vals[i])[j]
                nm = "%d.%d" % (i, j)
                s = t0.sort()
                if s == TR:
                    # which channel it is
                    ch = [c for c in C.CHANNELS if en.load(os).f[c].eq(t0)]
                    ch = ch[0] if ch else None
                    if not ks:
                        for c in ([ch] if ch else C.CHANNELS):
                            out.append((nm + "=classes " + c, lambda vals, k, g=get, c=c, t0=t0: g(vals) == sp.classes(c, t0, seq, k)))
                    else:
                        c, rec = outer(ks)
                        for d in ("push", "pull"):
                            if ch in (None, "b"):
                                out.append((nm + "=bases " + d, lambda vals, k, g=get, d=d, t0=t0, rec=rec: g(vals) == sp.bases(d, t0, rec, seq, k)))
                            if ch in (None, "m"):
                                out.append((nm + "=members " + d, lambda vals, k, g=get, d=d, t0=t0, rec=rec: g(vals) == sp.members(d, t0, rec, sp.private(d, rec), k)))
                elif s == B:
                    bools.append((nm, get))
                    if ks:
                        c, rec = outer(ks)
                        for d, fr in (("push", sp.pushf), ("pull", sp.pullf)):
                            out.append((nm + "=friends " + d, lambda vals, k, g=get, fr=fr, rec=rec: g(vals) == fr(rec, k)))
                elif s == I:
                    ints.append((nm, get))
                    if ks and sp.fmt == "binary":
                        c, rec = outer(ks)
                        for w, mk in (("as of", mk_as), ("until", mk_un)):
                            out.append((nm + "=" + w, lambda vals, k, g=get, mk=mk, rec=rec: g(vals) == mk(rec, k)))
        if ks and sp.fmt == "binary":
            for a in range(len(ints)):
                for b in range(a):
                    out.append(("%s=%s" % (ints[a][0], ints[b][0]), lambda vals, k, x=ints[a][1], y=ints[b][1]: x(vals) == y(vals)))
            for a in range(len(bools)):
                for b in range(a):
                    out.append(("%s=%s" % (bools[a][0], bools[b][0]), lambda vals, k, x=bools[a][1], y=bools[b][1]: x(vals) == y(vals)))
                for x in range(len(ints)):
                    for y in range(x):
                        out.append(("%s=(%s or %s)" % (bools[a][0], ints[x][0], ints[y][0]),
                                    lambda vals, k, w=bools[a][1], x=ints[x][1], y=ints[y][1]: w(vals) == Or(x(vals) != 0, y(vals) != 0)))
        return out

    def touch(en, ks, k):
        if not ks:
            return []
        c, rec = outer(ks)
        return [sp.pushf(rec, k), sp.pullf(rec, k)]
    def exits(en, M, v0s, ks):
        if not ks:
            return []
        c, rec = outer(ks)
        out = []
        for i, v0 in enumerate(v0s):
            if v0 is None or isinstance(v0, (ProxyV, LamV, FnV, Uninit)):
                continue
            for j, t0 in enumerate(leaves(v0)):
                get = lambda vals, i=i, j=j: leaves(vals[i])[j]
                out.append(("%d.%d=old" % (i, j), lambda vals, k, g=get, t0=t0: g(vals) == t0))
                if t0.sort() == B:
                    for d in ("push", "pull"):
                        out.append(("%d.%d=befriended for %s" % (i, j, d), lambda vals, k, g=get, d=d: g(vals) == sp.private(d, rec)))
        return out
    en.o["extra_candidates"] = extra
    en.o["exit_candidates"] = exits
    en.o["touch"] = touch
    en.o["join"] = C.can_sync
    en.o["quick"] = True


class GenContracts:
    """Contracts of the generator's functions, applied at call sites."""

    def __init__(self, **k):
        self.k = k
        self.names = set()

    def find(self, en, fn, obj, args):
        q = fn["q"]
        if q == GEN + "::inheritsFromInstantiationOf":
            return CallContract(q, lambda en, fn, obj, args: inh(en.val(args[0]), T.s_cstr(en.val(args[1]).s)))
        return self.k.get(q.split("::")[-1]) if q.startswith(NS) or q.startswith("clang::RecursiveASTVisitor") else None


class CallContract:
    def __init__(self, name, f):
        self.name, self.f = name, f

    def apply(self, en, fn, obj, args):
        return self.f(en, fn, obj, args)


# ---- what is passed on (G05) ---------------------------------------------------------------------------------------------
FAC = NS + "CodeFactory"
gen_handle = z3.Function("generator_handle", Val, I)


@T.rule(gen_handle)
def _(t, c):
    return [t > 0]


def is_generator_ptr(ty):
    return ty.k == "uptr" and ty.a and ty.a[0].k == "rec" and ty.a[0].x["name"] == GEN


@lib("unbox:uptr")
def _(en, b, ty):
    """Generators are told apart by a handle; a code factory holds no null pointers (addGenerator())."""
    return RecV("uptr", {"has": TRUE, "v": gen_handle(b)}, ty) if is_generator_ptr(ty) else None


def start_log(en):
    """The log of what has been passed on."""
    l = en.o["log"] = en.new_cell(en.fresh(TR, "log"))
    en.o["event"] = lambda en, q, ts: log(en, q, *ts)
    return l


def log(en, what, *ts):
    en.store(en.o["log"], C.event(en.load(en.o["log"]), what, list(ts)))


def logging(what, arg=lambda en, obj, args: [], ret=None):
    def apply(en, fn, obj, args):
        log(en, what, *arg(en, obj, args))
        return ret(en, obj, args) if ret else None
    return CallContract(what, apply)


def dispatch(en, what, log0, gens, more, k):
    """The log after the first k generators were told."""
    def step(t, gens, *a):
        *more, k, p = a
        return C.event(p, what, [gen_handle(T.seq_at(gens, k))] + list(more))
    return fold_emit("dispatch:" + what, [SeqS] + [m.sort() for m in more], "log", step)(log0, gens, *(list(more) + [k]))


def verify_dispatch(u, f, unroll=0, opts=None):
    gen = f["q"].endswith("::generate")
    what = "generate" if gen else "addDeclaration"
    outs = []

    def target(en, obj, args):
        if gen:
            en.oblige("G05", "the configured output is written to", BoolVal(en.as_loc(args[0]) == outs[0]), assume_after=False)
        return [en.val(obj)] + ([] if gen else [en.val(args[0])])
    en, init = start(u, what, unroll, opts, GenContracts(**{what: logging(what, target)}), "G05")
    l = start_log(en)
    os = en.new_cell(RecV("stream", {}))
    outs.append(os)
    fac = make_factory(en, os)
    d = en.fresh(I, "declaration")
    en.assume(d > 0)
    gens = en.load(fac).f["m_generators"]
    log0 = en.load(l)
    more = [] if gen else [d]
    en.o["fold_roles"] = lambda en, ks: [("told", lambda k: dispatch(en, what, log0, gens, more, k))]

    def run():
        r = en.inline(f, fac, [] if gen else [d])
        en.enter(f)
        en.oblige("G05", "every configured generator is told, in order", en.load(l) == dispatch(en, what, log0, gens, more, T.seq_len(gens)), assume_after=False)
        if gen:
            en.oblige("G05", "generating is reported to work", en.tobool(en.val(r)), assume_after=False)
        en.oblige("G05", "the generators stay the same", en.load(fac).f["m_generators"] == gens, assume_after=False)
        en.reached += 1
    en.paths = en.explore(init, run)
    return [en]


BUILTIN_FLAGS = ["-x", "c++", "-Wno-pragma-once-outside-header", "-std=c++14", "-fsyntax-only"]


def clang_args(en, fac, st):
    """Clang's own name, the built-in flags, all options and all input files.

    The define is named after the project; whatever it is, it has to be there."""
    u = en.u
    opts_, files = en.load(fac.f["m_clangOptions"].loc), en.load(fac.f["m_sourceFiles"].loc)
    ot, ft = [u.ty(next(x["t"] for x in u.records[FAC]["fields"] if x["name"] == n)) for n in ("m_clangOptions", "m_sourceFiles")]
    ot, ft = [(t.a[0] if t.k in ("ref", "ptr") else t).a[0] for t in (ot, ft)]
    flags = T.seq_push(T.seq_empty, en.box(str_of(en, fac.f["m_applicationPath"]), st))
    for x in BUILTIN_FLAGS + ["-DREFLECTIVE_RAPIDJSON_GENERATOR"]:
        flags = T.seq_push(flags, en.box(lit(x), st))
    return seq_append(en, seq_append(en, flags, st, opts_, ot, T.seq_len(opts_)), st, files, ft, T.seq_len(files))


def verify_clang_args(u, f, unroll=0, opts=None):
    en, init = start(u, "makeClangArgs", unroll, opts, GenContracts(), "G05")
    fac = make_factory(en)
    old = en.load(fac)
    opts_, files = en.load(old.f["m_clangOptions"].loc), en.load(old.f["m_sourceFiles"].loc)
    st = u.ty(f["ret"]).a[0]
    ot, ft = [u.ty(next(x["t"] for x in u.records[FAC]["fields"] if x["name"] == n)) for n in ("m_clangOptions", "m_sourceFiles")]
    ot, ft = [(t.a[0] if t.k in ("ref", "ptr") else t).a[0] for t in (ot, ft)]

    def run():
        r = en.val(en.inline(f, fac, []))
        en.enter(f)
        a = clang_args(en, old, st)
        en.oblige("G05", "Clang gets its own name, the built-in flags, all options and all input files, in this order", r == a, assume_after=False)
        en.oblige("G05", "the code factory is left alone", eqv(en.load(fac), old), assume_after=False)
        en.reached += 1

    def extra(en, M, v0s, ks):
        out = []
        for i, v0 in enumerate(v0s):
            if isinstance(v0, z3.ExprRef) and v0.sort() == SeqS:
                for w, (src, t) in (("options", (opts_, ot)), ("files", (files, ft))):
                    out.append(("%d=%s" % (i, w), lambda vals, k, i=i, v0=v0, src=src, t=t: vals[i] == seq_append(en, v0, st, src, t, k)))
        return out
    en.o["extra_candidates"] = extra
    en.paths = en.explore(init, run)
    return [en]


def rec_value(en, cls, **known):
    """An arbitrary object of the repository's class; base classes of the library are not part of it."""
    f = {}
    for x in en.u.records[cls]["fields"]:
        n, t = x["name"], en.u.ty(x["t"])
        if n in known:
            f[n] = known[n]
        elif en.u.is_ref(x["t"]):
            f[n] = PtrV(False, en.new_cell(en.fresh_value(t, n)))
        elif t.k == "uptr":
            f[n] = RecV("uptr", {"has": en.fresh(B, n + ".has"), "v": en.fresh(I, n)}, t)
        else:
            f[n] = en.fresh_value(t, n)
    return en.new_cell(RecV("rec", f, en.u.ty(cls)))


VIS, CON, DIAG, ACT = NS + "Visitor", NS + "Consumer", NS + "DiagConsumer", NS + "FrontendAction"


def verify_visit(u, f, unroll=0, opts=None):
    """Visit...(): the traversal goes on, and VisitDecl() notes the declaration."""
    en, init = start(u, f["q"].split("::")[-1], unroll, opts, GenContracts(addDeclaration=logging("addDeclaration", lambda en, obj, args: [en.val(args[0])])), "G05")
    l = start_log(en)
    fac = make_factory(en)
    v = rec_value(en, VIS, m_factory=PtrV(False, fac))
    d = en.fresh(I, "node")
    en.assume(d > 0)
    log0 = en.load(l)

    def run():
        r = en.tobool(en.val(en.inline(f, v, [d])))
        en.enter(f)
        en.oblige("G05", "the traversal goes on", r, assume_after=False)
        en.oblige("G05", "every declaration is noted once", en.load(l) == (C.event(log0, "addDeclaration", [d]) if f["q"].endswith("::VisitDecl") else log0), assume_after=False)
        en.reached += 1
    en.paths = en.explore(init, run)
    return [en]


LIB["clang::ASTConsumer::HandleTopLevelDecl"] = lambda en, fn, obj, args, e: TRUE      # "The default implementation returns true"


def verify_top_level(u, f, unroll=0, opts=None):
    """HandleTopLevelDecl(): parsing goes on, and nothing is noted yet."""
    en, init = start(u, "HandleTopLevelDecl", unroll, opts, GenContracts(addDeclaration=logging("addDeclaration", lambda en, obj, args: [en.val(args[0])])), "G05")
    l = start_log(en)
    fac = make_factory(en)
    c = rec_value(en, CON, m_factory=PtrV(False, fac), m_visitor=en.load(rec_value(en, VIS, m_factory=PtrV(False, fac))))
    g = RecV("astrange", {"r": en.fresh(I, "group")}, u.ty(f["params"][0]["t"]))
    log0 = en.load(l)

    def run():
        r = en.tobool(en.val(en.inline(f, c, [g])))
        en.enter(f)
        en.oblige("G05", "parsing goes on after each declaration", r, assume_after=False)
        en.oblige("G05", "declarations are only noted and processed once everything has been parsed", en.load(l) == log0, assume_after=False)
        en.reached += 1
    en.paths = en.explore(init, run)
    return [en]


def verify_unit(u, f, unroll=0, opts=None):
    """HandleTranslationUnit(): everything is visited, then the code is generated."""
    en, init = start(u, "HandleTranslationUnit", unroll, opts, GenContracts(
        generate=logging("generate", ret=lambda en, obj, args: en.fresh(B, "generated")),
        TraverseDecl=logging("traverse", lambda en, obj, args: [en.val(args[0])], lambda en, obj, args: en.fresh(B, "traversed"))), "G05")
    l = start_log(en)
    fac = make_factory(en)
    c = rec_value(en, CON, m_factory=PtrV(False, fac), m_visitor=en.load(rec_value(en, VIS, m_factory=PtrV(False, fac))))
    ctx = en.fresh(I, "context")
    en.assume(ctx > 0)
    log0 = en.load(l)

    def run():
        en.inline(f, c, [en.new_cell(ctx)])
        en.enter(f)
        want = C.event(C.event(log0, "traverse", [acc("clang::ASTContext::getTranslationUnitDecl", I, ctx)]), "generate", [])
        en.oblige("G05", "the whole translation unit is visited before the code is generated, each once", en.load(l) == want, assume_after=False)
        en.reached += 1
    en.paths = en.explore(init, run)
    return [en]


SEMANTIC_ISSUE = 2


def verify_diagnostic(u, f, unroll=0, opts=None):
    en, init = start(u, "HandleDiagnostic", unroll, opts, GenContracts(), "G05")
    l = start_log(en)
    r = u.records[DIAG]
    c = rec_value(en, DIAG)
    old = en.load(c)
    en.assume(old.f["m_proxy"].f["has"])
    en.assume(old.f["m_proxy"].f["v"] > 0)
    # fewer than 2^32 errors are counted
    en.assume(old.f["m_realErrorCount"] < (1 << 32) - 1)
    level, info = en.fresh_value(u.ty(f["params"][0]["t"]), "level"), en.fresh(I, "info")
    en.assume(And(info > 0, level >= 0, level <= KINDS["level_Error"] + 1))
    log0 = en.load(l)

    def run():
        en.inline(f, c, [level, en.new_cell(info)])
        en.enter(f)
        now = en.load(c)
        diags = acc("clang::Diagnostic::getDiags", I, info)
        cat = acc("clang::DiagnosticIDs::getCategoryNumberForDiag", I, acc("clang::Diagnostic::getID", I, info))
        err = And(old.f["m_errorResilient"], level >= KINDS["level_Error"])
        sem = And(err, cat == SEMANTIC_ISSUE)
        lv = If(sem, IntVal(KINDS["level_Warning"]), level)
        count, forward = [[x, lv, info] for x in (IntVal(0), old.f["m_proxy"].f["v"])]
        resets = And(sem, old.f["m_realErrorCount"] == 0)
        goals = []
        for order in ((count, forward), (forward, count)):          # whichever comes first
            want = log0
            for x in order:
                want = C.event(want, "clang::DiagnosticConsumer::HandleDiagnostic", x)
            goals.append(en.load(l) == If(resets, C.event(want, "clang::DiagnosticsEngine::Reset", [diags, FALSE]), want))
        en.oblige("G05", "diagnostics are always counted and forwarded, semantic errors as warnings and forgotten afterwards in error-resilient mode unless there was another error",
                  Or(*goals), assume_after=False)
        en.oblige("G05", "other errors are counted in error-resilient mode", now.f["m_realErrorCount"] == old.f["m_realErrorCount"] + If(And(err, Not(sem)), IntVal(1), IntVal(0)), assume_after=False)
        en.oblige("G05", "nothing else changes", And(eqv(now.f["m_proxy"], old.f["m_proxy"]), now.f["m_errorResilient"] == old.f["m_errorResilient"]), assume_after=False)
        en.reached += 1
    en.paths = en.explore(init, run)
    return [en]


def verify_forward(u, f, unroll=0, opts=None):
    """DiagConsumer: everything else is forwarded to the previous consumer."""
    m = f["q"].split("::")[-1]
    en, init = start(u, m, unroll, opts, GenContracts(), "G05")
    l = start_log(en)
    c = rec_value(en, DIAG)
    old = en.load(c)
    en.assume(old.f["m_proxy"].f["has"])
    en.assume(old.f["m_proxy"].f["v"] > 0)
    args = [en.fresh(I, "argument") for _ in f["params"]]
    log0 = en.load(l)

    def run():
        en.inline(f, c, [en.new_cell(a) if u.is_ref(p["t"]) else a for a, p in zip(args, f["params"])])
        en.enter(f)
        en.oblige("G05", "the call is forwarded with its arguments", en.load(l) == C.event(log0, "clang::DiagnosticConsumer::" + m, [old.f["m_proxy"].f["v"]] + args), assume_after=False)
        en.oblige("G05", "nothing changes", eqv(en.load(c), old), assume_after=False)
        en.reached += 1
    en.paths = en.explore(init, run)
    return [en]


def verify_create_consumer(u, f, unroll=0, opts=None):
    en, init = start(u, "CreateASTConsumer", unroll, opts, GenContracts(), "G05")
    l = start_log(en)
    fac = make_factory(en)
    old = en.load(fac)
    action = rec_value(en, NS + "FrontendAction", m_factory=PtrV(False, fac))
    ci = en.fresh(I, "compilerInstance")
    en.assume(ci > 0)
    cil = en.new_cell(ci)
    log0 = en.load(l)

    def run():
        r = en.inline(f, action, [cil, en.fresh_value(u.ty(f["params"][1]["t"]), "inputFile")])
        en.enter(f)
        now = en.load(fac)
        diags = acc("clang::CompilerInstance::getDiagnostics", I, ci)
        r = en.val(r)
        cons, owned = r.f["v"], And(r.f["has"], TRUE)
        same = lambda p, l: isinstance(p, PtrV) and p.loc == l
        en.oblige("G05", "a consumer using the factory and the compiler instance is returned",
                  And(owned, BoolVal(isinstance(cons, RecV) and cons.ty.x.get("name") == CON and same(cons.f["m_factory"], fac) and same(cons.f["m_visitor"].f["m_factory"], fac)
                                     and same(cons.f["m_compilerInstance"], cil))), assume_after=False)
        client = C.event(log0, "clang::DiagnosticsEngine::setClient", [diags, lit(DIAG), acc("clang::DiagnosticsEngine::takeClient.has", B, diags),
                                                                       acc("clang::DiagnosticsEngine::takeClient", I, diags), IntVal(0), old.f["m_errorResilient"], TRUE])
        en.oblige("G05", "the previous consumer of diagnostics is replaced by one which forwards to it, error-resilient as configured", en.load(l) == client, assume_after=False)
        en.oblige("G05", "the factory gets the compiler instance and is not changed otherwise", And(*[now.f[n] == ci if n == "m_compilerInstance" else eqv(now.f[n], old.f[n]) for n in now.f if z3.is_expr(now.f[n])]), assume_after=False)
        en.reached += 1
    en.paths = en.explore(init, run)
    return [en]


def verify_run(u, f, unroll=0, opts=None):
    """CodeFactory::run: clang is run with the arguments of makeClangArgs() and an action using the factory, as often as requested."""
    return [run_scenario(u, f, unroll, opts, first) for first in (True, False)]


def run_scenario(u, f, unroll, opts, first):
    def compose(en, fn, obj, args):
        return clang_args(en, en.load(obj), u.ty(fn["ret"]).a[0])
    en, init = start(u, "first run" if first else "further run", unroll, opts, GenContracts(makeClangArgs=CallContract("makeClangArgs", compose)), "G05")
    l = start_log(en)
    fac = make_factory(en)
    old = en.load(fac)
    tt = u.ty(next(x["t"] for x in u.records[FAC]["fields"] if x["name"] == "m_toolInvocation"))
    inv = None if first else RecV("rec", {x["name"]: en.fresh_value(u.ty(x["t"]), x["name"]) for x in u.records[FAC + "::ToolInvocation"]["fields"]}, tt.a[0])
    old = RecV("rec", dict(old.f, m_toolInvocation=RecV("uptr", {"has": BoolVal(not first), "v": inv}, tt)), old.ty)
    en.store(fac, old)
    log0 = en.load(l)
    i = None if first else inv.f["invocation"]

    def run():
        nonlocal i
        r = en.inline(f, fac, [])
        en.enter(f)
        now = en.load(fac)
        start_ = log0
        if first:
            # clang shares the ownership of the file manager, which is part of the factory
            args = clang_args(en, old, u.ty(next(x for x in u.functions.values() if x["q"] == FAC + "::makeClangArgs")["ret"]).a[0])
            fm = acc("new:clang::FileManager", I, lit("."), acc("new:llvm::IntrusiveRefCntPtr", I, IntVal(0)))
            i = acc("new:clang::tooling::ToolInvocation", I, args, TRUE, lit(NS + "FrontendAction"), object_at(fac), fm, TRUE, IntVal(0))
            start_ = C.event(log0, "llvm::RefCountedBase::Retain", [fm])
        en.oblige("G05", "clang is run once on the input with the composed arguments and an action using the factory", en.load(l) == C.event(start_, "clang::tooling::ToolInvocation::run", [i]), assume_after=False)
        en.oblige("G05", "the result of running clang is returned", en.tobool(en.val(r)) == acc("clang::tooling::ToolInvocation::run", B, i), assume_after=False)
        en.oblige("G05", "the factory is not changed otherwise", And(*[eqv(now.f[n], old.f[n]) for n in now.f if z3.is_expr(now.f[n])]), assume_after=False)
        en.reached += 1
    en.paths = en.explore(init, run)
    return en


SIMPLE = {
    FAC + "::run": verify_run,
    NS + "FrontendAction::CreateASTConsumer": verify_create_consumer,
    VIS + "::VisitDecl": verify_visit,
    VIS + "::VisitFunctionDecl": verify_visit,
    VIS + "::VisitStmt": verify_visit,
    VIS + "::VisitNamespaceDecl": verify_visit,
    VIS + "::VisitCXXRecordDecl": verify_visit,
    CON + "::HandleTranslationUnit": verify_unit,
    CON + "::HandleTopLevelDecl": verify_top_level,
    DIAG + "::HandleDiagnostic": verify_diagnostic,
    DIAG + "::BeginSourceFile": verify_forward,
    DIAG + "::EndSourceFile": verify_forward,
    DIAG + "::clear": verify_forward,
    DIAG + "::finish": verify_forward,
    FAC + "::makeClangArgs": verify_clang_args,
    FAC + "::addDeclaration": verify_dispatch,
    FAC + "::generate": verify_dispatch,
    GEN + "::isOnlyIncluded": verify_only_included,
    GEN + "::lazyInitializeSourceManager": verify_lazy,
    GEN + "::inheritsFromInstantiationOf": verify_inherits,
    SER + "::addDeclaration": verify_add_declaration,
    SER + "::computeRelevantClass": verify_relevant_class,
    JGEN + "::computeRelevantClass": verify_relevant_class,
    BGEN + "::computeRelevantClass": verify_relevant_class,
    SER + "::findRelevantClasses": verify_find_classes,
    SER + "::findRelevantBaseClasses": verify_find_bases,
    JGEN + "::generate": (verify_generate, verify_generate_default),
    BGEN + "::generate": (verify_generate, verify_generate_default),
    RETRIEVE + "::(ctor)": verify_retrieve_ctor,
    RETRIEVE + "::VisitStmt": verify_visit_stmt,
    TRACK + "::checkForVersionMarker": verify_marker,
    JGEN + "::(ctor)": verify_gen_ctor,
    BGEN + "::(ctor)": verify_gen_ctor,
}


def targets(u):
    from . import contracts_main
    out = contracts_main.targets(u)
    for f in u.functions.values():
        if f.get("body") is None:
            continue
        if f["q"] in SIMPLE:
            v = SIMPLE[f["q"]]
            out += [(f, x) for x in (v if isinstance(v, tuple) else (v,))]
    return out
