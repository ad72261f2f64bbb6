"""Models of the clang/LLVM AST interface, of command line arguments and of the stream generated code is written to.

Every accessor of a clang or LLVM class is an uninterpreted pure function of the node (and its arguments); a node is an
integer handle, 0 is the null pointer. The output stream is interpreted: what is inserted into it is cut into the
statements of the generated program, each one an event which carries the version condition it is guarded by."""
import json
import os
import re
import z3
from z3 import And, Or, Not, If, Implies, IntVal, BoolVal
from .sym import *
from . import theory as T
from .ir import Ty
from .lib_std import LIB, lib, simp, str_of, is_strish, method, mkview
from .engine import Loc

VOCFILE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "vocabulary.json")
TR = z3.DeclareSort("Emitted")
I, B = z3.IntSort(), z3.BoolSort()

NONNULL = {"clang::QualType::operator->", "clang::Diagnostic::getDiags", "llvm::IntrusiveRefCntPtr::operator->", "llvm::IntrusiveRefCntPtr::get",
           "clang::DiagnosticsEngine::takeClient", "clang::ASTContext::getTranslationUnitDecl", "clang::QualType::getTypePtr"}
IDENTITY = {"clang::QualType::operator->", "clang::QualType::getTypePtr", "clang::QualType::operator*", "llvm::IntrusiveRefCntPtr::operator->", "llvm::IntrusiveRefCntPtr::get",
            "llvm::IntrusiveRefCntPtr::operator*", "clang::QualType::getTypePtrOrNull"}
RANGE_OF = {"friend": "clang::CXXRecordDecl::friends", "bases": "clang::CXXRecordDecl::bases", "field": "clang::RecordDecl::fields", "decls": "clang::DeclContext::decls"}
rlen = z3.Function("ast_range_length", I, I)
relem = z3.Function("ast_range_element", I, I, I)


@T.rule(rlen)
def _(t, c):
    return [t >= 0]


@T.rule(relem)
def _(t, c):
    return [t > 0]


def is_handle(ty):
    return ty.k == "ast" or ty.k == "ptr" and ty.a and ty.a[0].k == "ast"


class RangeKey:
    """Identity of a range of AST nodes."""

    def __init__(self, r):
        self.r = r

    def __eq__(self, o):
        return isinstance(o, RangeKey) and self.r.eq(o.r)

    def __hash__(self):
        return 7

    def __repr__(self):
        return "range(%s)" % self.r


def terms(en, vs):
    out = []
    for v in vs:
        v = en.val(v)
        if isinstance(v, PtrV) and z3.is_true(as_bool(v.null)):
            out.append(IntVal(0))
        elif isinstance(v, PtrV) and v.loc is not None and not v.loc.path and v.loc.cell in en.st.ghost.get("new", ()):
            # a new object is handed over: its class and contents
            out += described(en.load(v.loc))
        elif isinstance(v, RecV) and v.kind == "uptr" and isinstance(v.f["v"], RecV) and v.f["v"].kind == "rec":
            out += [v.f["has"]] + described(v.f["v"])
        elif isinstance(v, RecV) and v.kind == "astrange":
            out.append(v.f["r"])
        elif is_strish(v) and not (isinstance(v, z3.ExprRef) and v.sort() == I):
            out.append(str_of(en, v))
        else:
            out += leaves(v)
    return out


def object_at(l):
    """Names the object at a location."""
    return z3.Int("object %r" % (l,))


def described(o):
    """An object of the repository's classes: its class and contents; what it refers to counts by its identity."""
    out = [lit(o.ty.x["name"] if isinstance(o, RecV) and o.ty is not None else "?")]
    for v in o.f.values():
        out += [object_at(v.loc)] if isinstance(v, PtrV) and v.loc is not None else leaves(v)
    return out


def uf(q, args, sort):
    """The uninterpreted accessor q."""
    args = [IntVal(a) if isinstance(a, int) else a for a in args]
    if not args:
        return z3.Const("ast:" + q, sort)
    return z3.Function("ast:%s:%s:%s" % (q, ",".join(a.sort().name() for a in args), sort.name()), *([a.sort() for a in args] + [sort]))(*args)


def bounded(q, n):
    """Accessors with non-negative results."""
    if q not in T.RULES:
        T.RULES[q] = [lambda t, c: [t >= n]]


VOCABULARY = set(json.load(open(VOCFILE))) if os.path.exists(VOCFILE) else None
USED = set()


def accessor(en, q, args, key):
    """Result of the accessor for the C++ type key."""
    USED.add(q)
    if VOCABULARY is not None and q not in VOCABULARY:
        # nothing is known about how it relates to the accessors the contracts speak about
        raise Unsupported("%s is not among the accessors the contracts relate to" % q)
    ty = en.u.ty(key)
    if ty.k == "bool":
        return uf(q, args, B)
    if ty.k in ("int", "enum"):
        v = uf(q, args, I)
        it = ty.a[0] if ty.k == "enum" else ty
        lo, hi = INT_MIN[it.x["bits"], it.x["signed"]], INT_MAX[it.x["bits"], it.x["signed"]]
        n = v.decl().name()
        if n not in T.RULES:
            T.RULES[n] = [lambda t, c: [t >= lo, t <= hi]]
        return v
    if ty.k == "str":
        return uf(q, args, Str)
    if ty.k == "strview":
        return RecV("strview", {"null": FALSE, "s": uf(q, args, Str)}, ty)
    if ty.k == "cstr":
        s = uf(q + ".s", args, Str)
        return CharP(uf(q + ".null", args, B), T.s_cstr(s))
    if ty.k in CONT_SORT:
        return uf(q, args, CONT_SORT[ty.k])
    if ty.k == "uptr" and is_handle(ty.a[0]):
        return RecV("uptr", {"has": uf(q + ".has", args, B), "v": uf(q, args, I)}, ty)
    if is_handle(ty):
        v = uf(q, args, I)
        n = v.decl().name()
        if ty.k == "ptr" and q not in NONNULL:
            bounded(n, 0)
        else:
            bounded(n, 1)
        if ty.k == "ast" and ty.x["name"] in ("llvm::iterator_range",):
            return RecV("astrange", {"r": v}, ty)
        return v
    raise Unsupported("result of %s: %r" % (q, ty))


LIBPREFIX = ("clang::", "llvm::", "CppUtilities::Argument", "CppUtilities::ConfigValueArgument", "CppUtilities::OperationArgument")
EVENTFUL = {"clang::DiagnosticsEngine::Reset", "clang::DiagnosticConsumer::HandleDiagnostic", "clang::DiagnosticsEngine::setClient",
            "clang::tooling::ToolInvocation::run"}
_star = LIB["*"]


@lib("*")
def _(en, fn, obj, args, e):
    q = fn["q"]
    if q.startswith(LIBPREFIX):
        r = clang_call(en, fn, obj, args, e)
        if r is not NotImplemented:
            return r
    return _star(en, fn, obj, args, e)


def clang_call(en, fn, obj, args, e):
    q = fn["q"]
    m = q.split("::")[-1]
    all_ = ([obj] if obj is not None else []) + list(args)
    vs = [en.val(a) for a in all_]
    first = vs[0] if vs else None
    if q.startswith("llvm::StringRef"):
        return stringref(en, m, all_, vs, fn, e)
    if q in ("llvm::dyn_cast", "llvm::cast", "llvm::isa", "llvm::dyn_cast_or_null", "llvm::cast_or_null", "llvm::dyn_cast_if_present", "llvm::isa_and_nonnull"):
        return rtti(en, m, vs, fn, e)
    if isinstance(first, IterV) and first.kind == "ast" and m.startswith("operator"):
        return _star(en, dict(fn, q="std::it::" + m), obj, args, e)
    if isinstance(first, RecV) and first.kind == "astrange":
        if m in ("begin", "end"):
            r = first.f["r"]
            return IterV("ast", RangeKey(r), IntVal(0) if m == "begin" else rlen(r), en.u.ty(e["t"]))
        if m == "empty":
            return rlen(first.f["r"]) == 0
    if m.endswith(("_begin", "_end")) and m.rsplit("_", 1)[0] in RANGE_OF and obj is not None and len(vs) == 1:
        r = uf(RANGE_OF[m.rsplit("_", 1)[0]], terms(en, vs), I)
        return IterV("ast", RangeKey(r), IntVal(0) if m.endswith("_begin") else rlen(r), en.u.ty(e["t"]))
    if m in ("operator==", "operator!=") and len(vs) == 2 and all(isinstance(v, z3.ExprRef) and v.sort() == I for v in vs):
        return vs[0] == vs[1] if m == "operator==" else vs[0] != vs[1]
    if m == "operator bool" or m == "operator conv" or q in IDENTITY:
        return first
    if m == "operator=" and isinstance(obj, Loc) and isinstance(first, z3.ExprRef):
        en.store(obj, vs[1])
        return obj
    if q in EVENTFUL or fn.get("ret") == "void":
        h = en.o.get("event")
        if h is None:
            raise Unsupported("call to %s" % q)
        # a member of a base class called on the object under verification: "itself"
        own = isinstance(first, RecV) and obj is not None
        h(en, q, ([IntVal(0)] if own else []) + terms(en, all_[1:] if own else all_))
        if fn.get("ret") == "void":
            return None
    r = accessor(en, q, terms(en, all_), e["t"])
    return r


def stringref(en, m, all_, vs, fn, e):
    if m in ("starts_with", "startswith", "ends_with", "contains", "equals", "equals_insensitive"):
        if m == "equals":
            return str_of(en, vs[0]) == str_of(en, vs[1])
        return uf("str:" + m.replace("startswith", "starts_with"), [str_of(en, vs[0]), str_of(en, vs[1])], B)
    if m == "str":
        return str_of(en, vs[0])
    if m in ("operator basic_string", "operator basic_string_view", "operator conv"):
        t = en.u.ty(e["t"])
        return str_of(en, vs[0]) if t.k == "str" else mkview(str_of(en, vs[0]))
    if m in ("size", "data", "empty", "length", "operator="):
        return method(en, en.u.ty(e["obj"]["t"]) if "obj" in e and e["obj"].get("t") else vs[0].ty, m, all_[0], all_[1:], fn, e)
    return NotImplemented


@lib("llvm::operator==", "llvm::operator!=")
def _(en, fn, obj, args, e):
    a, b = [en.val(x) for x in args]
    if is_strish(a) and is_strish(b):
        r = str_of(en, a) == str_of(en, b)
        return r if fn["q"].endswith("==") else Not(r)
    return NotImplemented


@lib("std::basic_string::starts_with", "std::basic_string_view::starts_with")
def _(en, fn, obj, args, e):
    if "gen" not in en.st.ghost:
        return NotImplemented
    return uf("str:starts_with", [str_of(en, obj), str_of(en, args[0])], B)


# which values of clang::Decl::Kind a class covers (clang 18; verified against the headers by drivers/generator.cpp)
KIND = {}


def kinds(u):
    if not KIND:
        for f in u.functions.values():
            if f["q"].startswith("rrv_kind_") and f.get("body"):
                x = f["body"]["b"][0]["x"]
                while x["e"] != "int":
                    x = x["x"]
                KIND[f["q"][9:]] = int(x["v"])
    return KIND


def rtti(en, m, vs, fn, e):
    to = None
    for a in fn.get("targs", []):
        if "t" in a:
            to = en.u.ty(a["t"])
            break
    n = to.x.get("name", "").split("::")[-1] if to is not None else ""
    if not n.endswith("Decl") or kinds(en.u).get(n[:-4]) is None:
        raise Unsupported("%s<%s>" % (m, n))
    ok = uf("clang::Decl::getKind", [vs[0]], I) == KIND[n[:-4]]
    if m in ("dyn_cast_or_null", "cast_or_null", "dyn_cast_if_present", "isa_and_nonnull"):
        ok = And(vs[0] != 0, ok)
    else:
        en.oblige(en.o.get("gn", "GN"), "no null pointer is cast", vs[0] != 0)
    if m.startswith("isa"):
        return ok
    if m.startswith("dyn"):
        return If(ok, vs[0], IntVal(0))
    en.oblige(en.o.get("gn", "GN"), "the node has the type it is cast to", ok)
    return vs[0]


@lib("deref:ast")
def _(en, it):
    r = it.loc.r
    en.oblige(en.o.get("gn", "GN"), "iterator is dereferenceable", And(it.pos >= 0, it.pos < rlen(r)))
    return relem(r, it.pos)


@lib("iterlimit:ast")
def _(en, it):
    return rlen(it.loc.r)


_addrof = LIB.get("addrof")


@lib("addrof")
def _(en, a, e):
    v = en.load(a)
    t = en.u.ty(e["t"])
    if is_handle(t) and isinstance(v, z3.ExprRef) and v.sort() == I:
        return v
    return _addrof(en, a, e) if _addrof else None


# ---- the emitted program ---------------------------------------------------------------------------------------------
CHANNELS = ("m", "b", "h")
KEYWORD_HEADER = re.compile(r"^template <>")
BASE_CALL = re.compile(r"static_cast<")
MEMBER = re.compile(r"\((?:reflectable|customObject)\.")
VERSION_IF = re.compile(r"^if \(version >= (\S+?)(?: && version <= (\S+?))?\) \{$")
VERSION_IF2 = re.compile(r"^if \(version <= (\S+?)(?: && version >= (\S+?))?\) \{$")
HOLE = re.compile("\x01(\\d+)\x02")


def event(tr, text, holes, *more):
    """tr extended by the statement `text` whose holes are filled with the given terms."""
    args = [tr] + list(holes) + [m if isinstance(m, z3.ExprRef) else BoolVal(m) if isinstance(m, bool) else IntVal(m) for m in more]
    return z3.Function("emit{%s}:%s" % (text, ",".join(a.sort().name() for a in args[1:])), *([a.sort() for a in args] + [TR]))(*args)


def statements(pieces):
    """Cuts pieces (text or terms) into statements [(text, holes)]; returns them and what is left over."""
    holes, s = [], ""
    for p in pieces:
        if isinstance(p, str):
            s += p
        else:
            l = lit_of(p) if p.sort() == Str else None
            if l is not None:
                s += l
            else:
                s += "\x01%d\x02" % len(holes)
                holes.append(p)
    out, cur, i, quote = [], "", 0, False

    def finish(cur):
        cur = re.sub(r"\s+", " ", cur).strip()
        hs = []

        def num(m):
            hs.append(holes[int(m.group(1))])
            return "\x01%d\x02" % (len(hs) - 1)
        cur = HOLE.sub(num, cur)
        return cur, hs
    last = 0
    while i < len(s):
        c = s[i]
        if quote:
            cur += c
            if c == "\\" and i + 1 < len(s):
                cur += s[i + 1]
                i += 1
            elif c == '"':
                quote = False
        elif c == '"':
            quote = True
            cur += c
        elif s.startswith("//", i):
            j = s.find("\n", i)
            if j < 0:
                out.append(("unterminated comment", []))
                return out, ""
            cur += " "
            i = j
        elif c in ";{}":
            cur += c
            out.append(finish(cur))
            cur = ""
            last = i + 1
        else:
            cur += c
        i += 1
    rest = cur.strip()
    return [x for x in out if not re.match(r"^\(void\) ?\w+;$", x[0])], rest


class Program:
    """What has been emitted so far, as terms per channel, plus the pending version condition."""

    def __init__(self, m, b, h, open_=FALSE, as_=IntVal(0), un=IntVal(0), seen=FALSE):
        self.ch = {"m": m, "b": b, "h": h}
        self.open, self.as_, self.un, self.seen = open_, as_, un, seen

    def add(self, decide, pieces, cond=None):
        sts, rest = statements(pieces)
        if rest:
            raise Unsupported("emitted text is cut within a statement: %r" % rest[:80])
        for text, holes in sts:
            self.statement(decide, text, holes, cond)
        return self

    def statement(self, decide, text, holes, cond=None):
        def value(x):
            m = HOLE.fullmatch(x)
            if m:
                return holes[int(m.group(1))]
            return IntVal(int(x)) if x.isdigit() else None
        v, w = VERSION_IF.match(text), VERSION_IF2.match(text)
        if v or w:
            a, b = (v.group(1), v.group(2)) if v else (w.group(2), w.group(1))
            a = value(a) if a else IntVal(0)
            b = value(b) if b else IntVal(0)
            if a is not None and b is not None and a.sort() == I and b.sort() == I:
                if decide(self.open):
                    self.ch["m"] = event(self.ch["m"], "nested version condition", [])
                self.open, self.as_, self.un = TRUE, a, b
                return
        if text == "}" and decide(self.open):
            self.open, self.as_, self.un = FALSE, IntVal(0), IntVal(0)
            return
        if text.endswith("{") and decide(self.open):
            text = "within a version condition: " + text
        a, u = cond if cond is not None else (self.as_, self.un)
        if KEYWORD_HEADER.match(text):
            self.seen = FALSE
            self.ch["b"] = event(self.ch["b"], text, holes)
            if not re.search(r"\b(pull|readCustomType)\b", text):
                self.ch["h"] = event(self.ch["h"], text, holes)
            self.ch["m"] = event(self.ch["m"], text, holes, a, u)
        elif BASE_CALL.search(text):
            self.ch["b"] = event(self.ch["b"], text, holes, a, u, self.seen)
        else:
            if MEMBER.search(text):
                self.seen = TRUE
            if text.startswith("namespace"):
                self.ch["h"] = event(self.ch["h"], text, holes)
            self.ch["m"] = event(self.ch["m"], text, holes, a, u)


FIELDS = ("m", "b", "h", "open", "as", "un", "seen")


def new_output(en):
    v = {c: en.fresh(TR, "emitted_" + c) for c in CHANNELS}
    v.update({"open": FALSE, "as": IntVal(0), "un": IntVal(0), "seen": FALSE})
    l = en.new_cell(RecV("program", v))
    en.st.ghost["gen"] = l
    en.st.ghost["pend"] = ()
    return l


def program_of(v):
    return Program(v.f["m"], v.f["b"], v.f["h"], v.f["open"], v.f["as"], v.f["un"], v.f["seen"])


def sync(en):
    """Turns pending output into statements."""
    l = en.st.ghost.get("gen")
    p = en.st.ghost.get("pend")
    if l is None or not p:
        return
    en.st.ghost["pend"] = ()
    g = program_of(en.load(l)).add(en.decide, list(p))
    for c in CHANNELS:
        en.store(l.f(c), g.ch[c])
    for n, t in (("open", g.open), ("as", g.as_), ("un", g.un), ("seen", g.seen)):
        en.store(l.f(n), t)


def can_sync(en):
    """Nothing is pending but whole statements."""
    p = en.st.ghost.get("pend")
    return not p or not statements(list(p))[1]


def put(en, os, piece):
    if not (isinstance(os, Loc) and os == en.st.ghost.get("gen")):
        raise Unsupported("output to another stream")
    if isinstance(piece, StrP):
        en.st.ghost["pend"] = en.st.ghost["pend"] + tuple(piece.p)
    else:
        en.st.ghost["pend"] = en.st.ghost["pend"] + (piece,)


@lib("std::basic_ostream::operator<<", "std::operator<<", "std::basic_ostream::write", "std::basic_ostream::put")
def _(en, fn, obj, args, e):
    if "gen" not in en.st.ghost:
        return NotImplemented
    os = obj if obj is not None else args[0]
    rest = args if obj is not None else args[1:]
    v = en.val(rest[0])
    m = fn["q"].split("::")[-1]
    if m == "write":
        if not isinstance(v, CharP):
            return NotImplemented
        put(en, os, T.s_prefix(v.s, en.val(rest[1])))
        return os
    if isinstance(v, CharP):
        en.oblige(en.o.get("gn", "GN"), "no null pointer is written", Not(as_bool(v.null)))
        put(en, os, T.s_cstr(v.s))
    elif isinstance(v, StrP):
        put(en, os, v)
    elif isinstance(v, z3.ExprRef) and v.sort() == Str:
        put(en, os, v)
    elif isinstance(v, RecV) and v.kind == "strview":
        put(en, os, v.f["s"])
    elif isinstance(v, z3.ExprRef) and v.sort() == I:
        t = en.u.ty(e["a"][-1]["t"])
        if t.k == "int" and t.x["bits"] == 8 or m == "put":
            if z3.is_int_value(v):
                put(en, os, chr(v.as_long()))
                return os
            raise Unsupported("writing a character")
        put(en, os, v)
    else:
        return NotImplemented
    return os


# ---- printing policies -------------------------------------------------------------------------------------------------
@lib("ctor:clang::PrintingPolicy")
def _(en, fn, t, kind, args, e):
    vs = [en.val(a) for a in args]
    if vs and isinstance(vs[0], RecV) and vs[0].kind == "policy":
        return vs[0]
    return RecV("policy", {"FullyQualifiedName": FALSE, "SuppressScope": FALSE}, t)


fqname = z3.Function("fully_qualified_name", I, B, Str)


@T.rule(fqname)
def _(t, c):
    return [t != lit("")]


@lib("clang::TypeName::getFullyQualifiedName")
def _(en, fn, obj, args, e):
    vs = [en.val(a) for a in args]
    p = vs[2]
    if not (isinstance(p, RecV) and p.kind == "policy"):
        return NotImplemented
    pre = vs[3] if len(vs) > 3 else FALSE
    good = And(en.tobool(p.f["FullyQualifiedName"]), Not(en.tobool(p.f["SuppressScope"])))
    return If(good, fqname(vs[0], en.tobool(pre)), z3.Function("type_name_without_scope", I, Str)(vs[0]))


# ---- integer literals ---------------------------------------------------------------------------------------------------
@lib("vinit:clang::Expr::EvalResult")
def _(en, ty):
    return RecV("evalresult", {"Val": IntVal(0)}, ty)


@lib("ctor:clang::Expr::EvalResult")
def _(en, fn, t, kind, args, e):
    return RecV("evalresult", {"Val": IntVal(0)}, t) if kind == "defctor" else en.val(args[0])


@lib("clang::Expr::EvaluateAsInt", "clang::Expr::EvaluateAsRValue")
def _(en, fn, obj, args, e):
    """The result depends on the expression only (the flags do not matter for literals)."""
    st = en.val(obj)
    en.store(en.as_loc(args[0]), en.load(en.as_loc(args[0])).with_("Val", uf("evaluated", [st], I)))
    return uf("evaluates", [st], B)


# ---- running clang ------------------------------------------------------------------------------------------------------
VALUE_LIKE = {"clang::FileManager", "clang::FileSystemOptions", "clang::tooling::ToolInvocation", "llvm::IntrusiveRefCntPtr"}


@lib("ctor:ast")
def _(en, fn, t, kind, args, e):
    """Such objects are told apart by what they have been constructed from."""
    if t.x["name"] not in VALUE_LIKE:
        return None
    if kind in ("copyctor", "movector"):
        return en.val(args[0])
    return uf("new:" + t.x["name"], terms(en, args), I)


# ---- command line arguments ---------------------------------------------------------------------------------------------
@lib("unbox:cstr")
def _(en, b, ty):
    """The values of a command line argument are C strings."""
    if not (T.app(b, T.seq_at) and b.arg(0).decl().name().startswith("ast:CppUtilities::Argument::values")):
        return None
    n = ty.sig()
    if n not in en.boxes:
        en.box(en.vinit(ty), ty)
    return CharP(FALSE, en.boxes[n][1][1](b))
