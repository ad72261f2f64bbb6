// rrv-extract: dumps the bodies of all (instantiated) functions defined below given path prefixes as JSON.
// The code is taken from clang's AST of the real translation unit; nothing is rewritten by hand.
// What is dropped: source formatting, no-op casts, parentheses, temporaries' cleanups, discarded
// "if constexpr" branches (clang drops them from the instantiation), attributes and asserts that expand to nothing.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/Mangle.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Tooling/CommonOptionsParser.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
#include <fstream>

using namespace clang;
namespace json = llvm::json;
using json::Array;
using json::Object;
using json::Value;

static std::vector<std::string> g_prefixes;
static std::string g_out;
static int g_errors = 0;

namespace {

class Dumper {
public:
    explicit Dumper(ASTContext &c)
        : ctx(c)
        , sm(c.getSourceManager())
        , policy(c.getLangOpts())
    {
        policy.SuppressTagKeyword = true;
        policy.SuppressInlineNamespace = true;
        policy.Bool = true;
    }
    ASTContext &ctx;
    SourceManager &sm;
    PrintingPolicy policy;
    Object types;
    std::set<std::string> typeSeen;
    std::map<const Decl *, int> ids;
    Object functions;
    std::set<int> dumped;
    Object records;
    std::set<std::string> recordsSeen;
    std::vector<const CXXRecordDecl *> pendingLambdas;

    int id(const Decl *d)
    {
        d = d->getCanonicalDecl();
        auto [it, ins] = ids.emplace(d, int(ids.size()) + 1);
        return it->second;
    }
    std::string file(SourceLocation l)
    {
        auto p = sm.getPresumedLoc(sm.getExpansionLoc(l));
        return p.isValid() ? std::string(p.getFilename()) : std::string();
    }
    int line(SourceLocation l)
    {
        auto p = sm.getPresumedLoc(sm.getExpansionLoc(l));
        return p.isValid() ? int(p.getLine()) : 0;
    }
    bool inRepo(const Decl *d)
    {
        const auto f = file(d->getLocation());
        for (const auto &p : g_prefixes)
            if (f.rfind(p, 0) == 0)
                return true;
        return false;
    }
    std::string qname(const NamedDecl *d)
    {
        std::vector<std::string> parts;
        std::string n;
        if (auto *fd = dyn_cast<FunctionDecl>(d)) {
            if (auto *cd = dyn_cast<CXXConversionDecl>(fd))
                n = "operator conv", (void)cd;
            else if (isa<CXXConstructorDecl>(fd))
                n = "(ctor)";
            else if (isa<CXXDestructorDecl>(fd))
                n = "(dtor)";
            else
                n = fd->getNameAsString();
        } else {
            n = d->getNameAsString();
        }
        parts.push_back(n);
        for (const DeclContext *dc = d->getDeclContext(); dc && !dc->isTranslationUnit(); dc = dc->getParent()) {
            if (auto *ns = dyn_cast<NamespaceDecl>(dc)) {
                if (ns->isInline())
                    continue;
                parts.push_back(ns->isAnonymousNamespace() ? "(anon)" : ns->getNameAsString());
            } else if (auto *rd = dyn_cast<RecordDecl>(dc)) {
                if (auto *crd = dyn_cast<CXXRecordDecl>(rd); crd && crd->isLambda())
                    parts.push_back("(lambda)");
                else
                    parts.push_back(rd->getNameAsString());
            } else if (auto *ed = dyn_cast<EnumDecl>(dc)) {
                if (ed->isScoped())
                    parts.push_back(ed->getNameAsString());
            } else if (auto *f = dyn_cast<FunctionDecl>(dc)) {
                parts.push_back(f->getNameAsString() + "()");
            }
        }
        std::string r;
        for (auto it = parts.rbegin(); it != parts.rend(); ++it) {
            if (!r.empty())
                r += "::";
            r += *it;
        }
        return r;
    }
    Value targ(const TemplateArgument &a)
    {
        switch (a.getKind()) {
        case TemplateArgument::Type:
            return Object{ { "t", type(a.getAsType()) } };
        case TemplateArgument::Integral: {
            llvm::SmallString<32> s;
            a.getAsIntegral().toString(s, 10);
            return Object{ { "i", s.str().str() } };
        }
        case TemplateArgument::Pack: {
            Array arr;
            for (auto &x : a.pack_elements())
                arr.push_back(targ(x));
            return Object{ { "pack", std::move(arr) } };
        }
        case TemplateArgument::NullPtr:
            return Object{ { "null", true } };
        default: {
            std::string s;
            llvm::raw_string_ostream os(s);
            a.print(policy, os, true);
            return Object{ { "o", os.str() } };
        }
        }
    }
    std::string type(QualType t)
    {
        t = ctx.getCanonicalType(t);
        const bool isConst = t.isConstQualified();
        QualType u = t.getUnqualifiedType();
        std::string key = u.getAsString(policy);
        if (const auto *rt = u->getAs<RecordType>()) {
            if (auto *crd = dyn_cast<CXXRecordDecl>(rt->getDecl()); crd && crd->isLambda())
                key = "lambda#" + std::to_string(id(crd));
        }
        if (typeSeen.insert(key).second) {
            Object o;
            if (u->isBooleanType()) {
                o["k"] = "bool";
            } else if (u->isEnumeralType()) {
                auto *ed = u->castAs<EnumType>()->getDecl();
                o["k"] = "enum";
                o["name"] = qname(ed);
                o["under"] = type(ed->getIntegerType());
                Object vals;
                for (const auto *ec : ed->enumerators())
                    if (ec->getInitVal().isRepresentableByInt64())
                        vals[ec->getNameAsString()] = ec->getInitVal().getExtValue();
                o["vals"] = std::move(vals);
            } else if (u->isIntegerType()) {
                o["k"] = "int";
                o["bits"] = int(ctx.getTypeSize(u));
                o["signed"] = u->isSignedIntegerType();
            } else if (u->isFloatingType()) {
                o["k"] = "float";
                o["bits"] = int(ctx.getTypeSize(u));
            } else if (u->isPointerType()) {
                o["k"] = "ptr";
                o["to"] = type(u->getPointeeType());
            } else if (u->isReferenceType()) {
                o["k"] = "ref";
                o["to"] = type(u->getPointeeType());
                o["rv"] = u->isRValueReferenceType();
                o["cst"] = u->getPointeeType().isConstQualified();
            } else if (u->isVoidType()) {
                o["k"] = "void";
            } else if (u->isNullPtrType()) {
                o["k"] = "nullptr";
            } else if (u->isRecordType()) {
                auto *rd = u->castAs<RecordType>()->getDecl();
                o["k"] = "rec";
                o["name"] = qname(rd);
                o["repo"] = inRepo(rd);
                Array args;
                if (auto *sp = dyn_cast<ClassTemplateSpecializationDecl>(rd))
                    for (auto &a : sp->getTemplateArgs().asArray())
                        args.push_back(targ(a));
                o["args"] = std::move(args);
                if (auto *crd = dyn_cast<CXXRecordDecl>(rd)) {
                    if (crd->isLambda())
                        o["lambda"] = id(crd);
                    // template parent args (nested classes of templates)
                    if (auto *psp = dyn_cast_or_null<ClassTemplateSpecializationDecl>(dyn_cast<CXXRecordDecl>(rd->getDeclContext()))) {
                        Array pargs;
                        for (auto &a : psp->getTemplateArgs().asArray())
                            pargs.push_back(targ(a));
                        o["pargs"] = std::move(pargs);
                    }
                    if (crd->hasDefinition()) {
                        Array bases;
                        for (auto &b : crd->bases())
                            bases.push_back(type(b.getType()));
                        o["bases"] = std::move(bases);
                        o["trivdtor"] = crd->hasTrivialDestructor();
                    }
                }
            } else if (u->isArrayType()) {
                o["k"] = "array";
                o["of"] = type(ctx.getAsArrayType(u)->getElementType());
            } else if (u->isFunctionType()) {
                o["k"] = "func";
            } else {
                o["k"] = "other";
            }
            o["p"] = key;
            types[key] = std::move(o);
            if (const auto *rt = u->getAs<RecordType>()) {
                if (auto *crd = dyn_cast<CXXRecordDecl>(rt->getDecl()))
                    record(crd, key);
            }
        }
        return isConst ? "const " + key : key;
    }
    void record(const CXXRecordDecl *rd, const std::string &key)
    {
        if (!rd->hasDefinition() || !(inRepo(rd) || rd->isLambda()))
            return;
        rd = rd->getDefinition();
        if (rd->isDependentContext() || !recordsSeen.insert(key).second)
            return;
        Object o;
        Array fields;
        for (auto *f : rd->fields()) {
            Object fo{ { "name", f->getNameAsString() }, { "id", id(f) }, { "t", type(f->getType()) } };
            if (f->hasInClassInitializer() && f->getInClassInitializer())
                fo["init"] = expr(f->getInClassInitializer());
            fields.push_back(std::move(fo));
        }
        o["fields"] = std::move(fields);
        if (auto *d = rd->getDestructor())
            o["dtor"] = id(d);
        o["lambda"] = rd->isLambda();
        if (rd->isLambda()) {
            Array ops;
            if (auto *call = rd->getLambdaCallOperator()) {
                if (auto *ft = call->getDescribedFunctionTemplate()) {
                    for (auto *s : ft->specializations())
                        ops.push_back(fnref(s)), function(s);
                } else {
                    ops.push_back(fnref(call));
                    function(call);
                }
            }
            o["ops"] = std::move(ops);
        }
        records[key] = std::move(o);
    }
    Value fnref(const FunctionDecl *f)
    {
        Object o;
        o["q"] = qname(f);
        o["id"] = id(f);
        o["repo"] = inRepo(f);
        if (auto *a = f->getTemplateSpecializationArgs()) {
            Array args;
            for (auto &x : a->asArray())
                args.push_back(targ(x));
            o["targs"] = std::move(args);
        }
        Array pt;
        for (auto *p : f->parameters())
            pt.push_back(type(p->getType()));
        o["pt"] = std::move(pt);
        o["ret"] = type(f->getReturnType());
        if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
            o["cls"] = type(ctx.getRecordType(m->getParent()));
            o["const"] = m->isConst();
            o["static"] = m->isStatic();
            o["virtual"] = m->isVirtual();
        }
        if (isa<CXXConstructorDecl>(f)) {
            auto *c = cast<CXXConstructorDecl>(f);
            o["kind"] = c->isCopyConstructor() ? "copyctor" : c->isMoveConstructor() ? "movector" : c->isDefaultConstructor() ? "defctor" : "ctor";
            if (c->isInheritingConstructor())
                o["inh"] = true;
            o["defaulted"] = c->isDefaulted();
        } else if (isa<CXXDestructorDecl>(f))
            o["kind"] = "dtor";
        else if (isa<CXXConversionDecl>(f))
            o["kind"] = "conv";
        else if (isa<CXXMethodDecl>(f)) {
            o["kind"] = "method";
            o["defaulted"] = f->isDefaulted();
        } else
            o["kind"] = "func";
        if (auto *fpt = f->getType()->getAs<FunctionProtoType>())
            o["noexcept"] = fpt->canThrow() == CT_Cannot;
        return Value(std::move(o));
    }
    Value varref(const ValueDecl *v)
    {
        return Object{ { "id", id(v) }, { "name", v->getNameAsString() } };
    }
    Value exprs(llvm::iterator_range<Stmt::const_child_iterator> r)
    {
        Array a;
        for (auto *s : r)
            a.push_back(s ? expr(cast<Expr>(s)) : Value(nullptr));
        return Value(std::move(a));
    }
    template <typename It> Value exprList(It b, It e)
    {
        Array a;
        for (; b != e; ++b)
            a.push_back(expr(*b));
        return Value(std::move(a));
    }
    Value vardecl(const VarDecl *v)
    {
        Object o{ { "id", id(v) }, { "name", v->getNameAsString() }, { "t", type(v->getType()) } };
        if (v->getInit())
            o["init"] = expr(v->getInit());
        if (v->isStaticLocal())
            o["static"] = true;
        if (auto *dd = dyn_cast<DecompositionDecl>(v)) {
            Array b;
            for (auto *bd : dd->bindings()) {
                Object bo{ { "id", id(bd) }, { "name", bd->getNameAsString() } };
                if (bd->getBinding())
                    bo["e"] = expr(bd->getBinding());
                if (auto *hv = bd->getHoldingVar()) {
                    bo["hold"] = vardecl(hv);
                }
                b.push_back(std::move(bo));
            }
            o["bindings"] = std::move(b);
        }
        return Value(std::move(o));
    }
    static bool hasSideEffectFreeConst(const Expr *e)
    {
        return true;
    }
    Value expr(const Expr *e)
    {
        if (!e)
            return nullptr;
        // peel wrappers
        if (auto *p = dyn_cast<ParenExpr>(e))
            return expr(p->getSubExpr());
        if (auto *p = dyn_cast<ExprWithCleanups>(e))
            return expr(p->getSubExpr());
        if (auto *p = dyn_cast<ConstantExpr>(e))
            return expr(p->getSubExpr());
        if (auto *p = dyn_cast<SubstNonTypeTemplateParmExpr>(e))
            return expr(p->getReplacement());
        if (auto *p = dyn_cast<CXXDefaultArgExpr>(e))
            return expr(p->getExpr());
        if (auto *p = dyn_cast<CXXDefaultInitExpr>(e))
            return expr(p->getExpr());
        if (auto *p = dyn_cast<CXXBindTemporaryExpr>(e))
            return expr(p->getSubExpr());
        if (auto *p = dyn_cast<CXXStdInitializerListExpr>(e))
            return Object{ { "e", "stdinit" }, { "t", type(e->getType()) }, { "x", expr(p->getSubExpr()) } };
        if (auto *p = dyn_cast<OpaqueValueExpr>(e))
            return p->getSourceExpr() ? expr(p->getSourceExpr()) : Value(Object{ { "e", "opaque" } });

        Object o;
        o["t"] = type(e->getType());
        o["l"] = line(e->getBeginLoc());
        if (e->isGLValue())
            o["lv"] = true;

        // constant folding of side-effect free integral expressions
        if (!e->isValueDependent() && !e->isGLValue() && (e->getType()->isIntegralOrEnumerationType())) {
            Expr::EvalResult r;
            if (!isa<CallExpr>(e) || true) {
                if (e->EvaluateAsInt(r, ctx, Expr::SE_NoSideEffects) && !r.HasSideEffects) {
                    llvm::SmallString<32> s;
                    r.Val.getInt().toString(s, 10);
                    o["e"] = "int";
                    o["v"] = s.str().str();
                    return Value(std::move(o));
                }
            }
        }
        if (auto *m = dyn_cast<MaterializeTemporaryExpr>(e)) {
            o["e"] = "mat";
            o["x"] = expr(m->getSubExpr());
            return Value(std::move(o));
        }
        if (auto *c = dyn_cast<CastExpr>(e)) {
            switch (c->getCastKind()) {
            case CK_NoOp:
                return expr(c->getSubExpr());
            case CK_LValueToRValue:
                o["e"] = "load";
                o["x"] = expr(c->getSubExpr());
                return Value(std::move(o));
            default:
                o["e"] = "cast";
                o["ck"] = c->getCastKindName();
                o["x"] = expr(c->getSubExpr());
                if (auto *conv = c->getConversionFunction())
                    (void)conv;
                return Value(std::move(o));
            }
        }
        if (auto *l = dyn_cast<IntegerLiteral>(e)) {
            llvm::SmallString<32> s;
            l->getValue().toString(s, 10, false);
            o["e"] = "int";
            o["v"] = s.str().str();
        } else if (auto *l = dyn_cast<FloatingLiteral>(e)) {
            o["e"] = "float";
            llvm::SmallString<32> s;
            l->getValue().toString(s);
            o["v"] = s.str().str();
        } else if (auto *l = dyn_cast<StringLiteral>(e)) {
            o["e"] = "str";
            o["v"] = json::fixUTF8(l->getString());
            Array b;
            bool nul = false;
            for (unsigned char ch : l->getBytes())
                nul = nul || !ch;
            o["nul"] = nul;
        } else if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) {
            o["e"] = "nullptr";
        } else if (isa<CXXThisExpr>(e)) {
            o["e"] = "this";
        } else if (auto *d = dyn_cast<DeclRefExpr>(e)) {
            auto *v = d->getDecl();
            if (auto *f = dyn_cast<FunctionDecl>(v)) {
                o["e"] = "fn";
                o["fn"] = fnref(f);
            } else if (auto *ec = dyn_cast<EnumConstantDecl>(v)) {
                llvm::SmallString<32> s;
                ec->getInitVal().toString(s, 10);
                o["e"] = "int";
                o["v"] = s.str().str();
            } else if (auto *bd = dyn_cast<BindingDecl>(v)) {
                o["e"] = "var";
                o["id"] = id(bd);
                o["name"] = bd->getNameAsString();
                o["binding"] = true;
                if (auto *hv = bd->getHoldingVar())
                    o["hold"] = id(hv);
                else if (bd->getBinding())
                    o["be"] = expr(bd->getBinding());
            } else {
                o["e"] = "var";
                o["id"] = id(v);
                o["name"] = v->getNameAsString();
                if (auto *vd = dyn_cast<VarDecl>(v)) {
                    if (vd->hasGlobalStorage()) {
                        o["global"] = qname(vd);
                        if (auto *ini = vd->getAnyInitializer(); ini && !ini->isValueDependent() && (vd->isConstexpr() || vd->getType().isConstQualified())) {
                            Expr::EvalResult r;
                            if (ini->getType()->isIntegralOrEnumerationType() && ini->EvaluateAsInt(r, ctx)) {
                                llvm::SmallString<32> s;
                                r.Val.getInt().toString(s, 10);
                                o["gv"] = s.str().str();
                            } else if (auto *sl = dyn_cast<StringLiteral>(ini->IgnoreParenImpCasts())) {
                                o["gs"] = json::fixUTF8(sl->getString());
                            } else if (inRepo(vd)) {
                                o["ginit"] = expr(ini);
                            }
                        }
                    }
                }
            }
        } else if (auto *m = dyn_cast<MemberExpr>(e)) {
            auto *md = m->getMemberDecl();
            if (auto *f = dyn_cast<FunctionDecl>(md)) {
                o["e"] = "memfn";
                o["fn"] = fnref(f);
                o["x"] = expr(m->getBase());
                o["arrow"] = m->isArrow();
            } else if (auto *vd = dyn_cast<VarDecl>(md)) { // static member
                o["e"] = "var";
                o["id"] = id(vd);
                o["name"] = vd->getNameAsString();
                o["global"] = qname(vd);
            } else {
                o["e"] = "mem";
                o["name"] = md->getNameAsString();
                if (auto *fd = dyn_cast<FieldDecl>(md)) {
                    if (md->getNameAsString().empty())
                        o["anon"] = true;
                    o["cls"] = type(ctx.getRecordType(fd->getParent()));
                }
                o["x"] = expr(m->getBase());
                o["arrow"] = m->isArrow();
            }
        } else if (auto *c = dyn_cast<CXXConstructExpr>(e)) {
            o["e"] = "ctor";
            o["fn"] = fnref(c->getConstructor());
            o["elide"] = c->isElidable();
            o["list"] = c->isListInitialization();
            o["zero"] = c->requiresZeroInitialization();
            o["a"] = exprList(c->arg_begin(), c->arg_end());
            function(c->getConstructor());
        } else if (auto *c = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
            o["e"] = "inhctor";
            o["fn"] = fnref(c->getConstructor());
        } else if (auto *c = dyn_cast<CXXOperatorCallExpr>(e)) {
            o["e"] = "call";
            o["op"] = getOperatorSpelling(c->getOperator());
            if (auto *f = c->getDirectCallee()) {
                o["fn"] = fnref(f);
                callee(f);
            } else
                o["callee"] = expr(c->getCallee());
            // for member operators the first arg is the object
            if (auto *f = c->getDirectCallee(); f && isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic()) {
                o["obj"] = expr(c->getArg(0));
                o["a"] = exprList(c->arg_begin() + 1, c->arg_end());
            } else
                o["a"] = exprList(c->arg_begin(), c->arg_end());
        } else if (auto *c = dyn_cast<CXXMemberCallExpr>(e)) {
            o["e"] = "call";
            if (auto *f = c->getMethodDecl()) {
                o["fn"] = fnref(f);
                callee(f);
            } else
                o["callee"] = expr(c->getCallee());
            if (auto *obj = c->getImplicitObjectArgument()) {
                o["obj"] = expr(obj);
                if (auto *me = dyn_cast<MemberExpr>(c->getCallee()->IgnoreParens())) {
                    o["arrow"] = me->isArrow();
                    o["qual"] = me->hasQualifier();
                }
            }
            o["a"] = exprList(c->arg_begin(), c->arg_end());
        } else if (auto *c = dyn_cast<CallExpr>(e)) {
            o["e"] = "call";
            if (auto *f = c->getDirectCallee()) {
                o["fn"] = fnref(f);
                callee(f);
            } else
                o["callee"] = expr(c->getCallee());
            o["a"] = exprList(c->arg_begin(), c->arg_end());
        } else if (auto *b = dyn_cast<CompoundAssignOperator>(e)) {
            o["e"] = "cassign";
            o["op"] = BinaryOperator::getOpcodeStr(b->getOpcode()).drop_back(1).str();
            o["ct"] = type(b->getComputationResultType());
            o["lt"] = type(b->getComputationLHSType());
            o["a"] = Array{ expr(b->getLHS()), expr(b->getRHS()) };
        } else if (auto *b = dyn_cast<BinaryOperator>(e)) {
            o["e"] = "bin";
            o["op"] = b->getOpcodeStr().str();
            o["a"] = Array{ expr(b->getLHS()), expr(b->getRHS()) };
        } else if (auto *r = dyn_cast<CXXRewrittenBinaryOperator>(e)) {
            return expr(r->getSemanticForm());
        } else if (auto *u = dyn_cast<UnaryOperator>(e)) {
            o["e"] = "un";
            o["op"] = UnaryOperator::getOpcodeStr(u->getOpcode()).str();
            o["post"] = u->isPostfix();
            o["x"] = expr(u->getSubExpr());
        } else if (auto *c = dyn_cast<ConditionalOperator>(e)) {
            o["e"] = "cond";
            o["a"] = Array{ expr(c->getCond()), expr(c->getTrueExpr()), expr(c->getFalseExpr()) };
        } else if (auto *t = dyn_cast<CXXThrowExpr>(e)) {
            o["e"] = "throw";
            if (t->getSubExpr())
                o["x"] = expr(t->getSubExpr());
        } else if (auto *l = dyn_cast<LambdaExpr>(e)) {
            o["e"] = "lambda";
            Array caps;
            for (auto it = l->capture_begin(); it != l->capture_end(); ++it) {
                Object co;
                if (it->capturesThis()) {
                    co["this"] = true;
                } else if (it->capturesVariable()) {
                    co["id"] = id(it->getCapturedVar());
                    co["name"] = it->getCapturedVar()->getNameAsString();
                    co["ref"] = it->getCaptureKind() == LCK_ByRef;
                    if (auto *vd = dyn_cast<VarDecl>(it->getCapturedVar()); vd && vd->isInitCapture() && vd->getInit())
                        co["init"] = expr(vd->getInit());
                }
                caps.push_back(std::move(co));
            }
            o["caps"] = std::move(caps);
            o["rec"] = id(l->getLambdaClass());
            Array ops;
            if (auto *call = l->getCallOperator()) {
                if (auto *ft = call->getDescribedFunctionTemplate()) {
                    for (auto *s : ft->specializations()) {
                        ops.push_back(fnref(s));
                        function(s);
                    }
                } else {
                    ops.push_back(fnref(call));
                    function(call);
                }
            }
            o["ops"] = std::move(ops);
        } else if (auto *i = dyn_cast<InitListExpr>(e)) {
            o["e"] = "ilist";
            {
                unsigned explicitInits = 0;
                for (auto *x : i->inits())
                    explicitInits += !isa<ImplicitValueInitExpr>(x);
                o["ne"] = explicitInits;
            }
            if (i->isSemanticForm() || !i->getSemanticForm())
                o["a"] = exprList(i->inits().begin(), i->inits().end());
            else {
                auto *sf = i->getSemanticForm();
                o["a"] = exprList(sf->inits().begin(), sf->inits().end());
            }
            if (auto *rt = e->getType()->getAs<RecordType>()) {
                Array fn;
                if (auto *crd = dyn_cast<CXXRecordDecl>(rt->getDecl()))
                    for (auto &bs : crd->bases()) {
                        (void)bs;
                        fn.push_back("(base)");
                    }
                for (auto *f : rt->getDecl()->fields())
                    fn.push_back(f->getNameAsString());
                o["fn"] = std::move(fn);
            }
        } else if (auto *s = dyn_cast<CXXScalarValueInitExpr>(e)) {
            o["e"] = "zero";
        } else if (isa<ImplicitValueInitExpr>(e)) {
            o["e"] = "zero";
        } else if (auto *s = dyn_cast<ArraySubscriptExpr>(e)) {
            o["e"] = "index";
            o["a"] = Array{ expr(s->getBase()), expr(s->getIdx()) };
        } else if (auto *n = dyn_cast<CXXNewExpr>(e)) {
            o["e"] = "new";
            o["at"] = type(n->getAllocatedType());
            if (n->getInitializer())
                o["x"] = expr(n->getInitializer());
        } else if (auto *t = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
            o["e"] = "sizeof";
        } else if (auto *a = dyn_cast<ArrayInitLoopExpr>(e)) {
            o["e"] = "arrayinit";
            o["x"] = expr(a->getCommonExpr()->getSourceExpr());
        } else if (auto *d = dyn_cast<CXXDeleteExpr>(e)) {
            o["e"] = "delete";
            o["x"] = expr(d->getArgument());
        } else if (isa<CXXFoldExpr>(e)) {
            o["e"] = "unsupported";
            o["cls"] = "fold";
        } else {
            o["e"] = "unsupported";
            o["cls"] = e->getStmtClassName();
        }
        return Value(std::move(o));
    }
    // remembers functions which are called so implicitly defined ones are dumped as well
    void callee(const FunctionDecl *f)
    {
        if (inRepo(f))
            function(f);
    }
    Value stmt(const Stmt *s)
    {
        if (!s)
            return nullptr;
        if (auto *e = dyn_cast<Expr>(s))
            return Object{ { "s", "expr" }, { "x", expr(e) }, { "l", line(s->getBeginLoc()) } };
        Object o;
        o["l"] = line(s->getBeginLoc());
        if (auto *c = dyn_cast<CompoundStmt>(s)) {
            o["s"] = "block";
            Array a;
            for (auto *x : c->body())
                a.push_back(stmt(x));
            o["b"] = std::move(a);
        } else if (auto *d = dyn_cast<DeclStmt>(s)) {
            o["s"] = "decl";
            Array a;
            for (auto *x : d->decls())
                if (auto *v = dyn_cast<VarDecl>(x))
                    a.push_back(vardecl(v));
            o["d"] = std::move(a);
        } else if (auto *i = dyn_cast<IfStmt>(s)) {
            o["s"] = "if";
            if (i->getInit())
                o["init"] = stmt(i->getInit());
            if (i->getConditionVariable())
                o["cv"] = vardecl(i->getConditionVariable());
            o["constexpr"] = i->isConstexpr();
            if (i->isConstexpr()) {
                if (auto nd = i->getNondiscardedCase(ctx)) {
                    // only the taken branch is part of the instantiation
                    o["s"] = "block";
                    Array a;
                    if (i->getInit())
                        a.push_back(stmt(i->getInit()));
                    if (*nd)
                        a.push_back(stmt(*nd));
                    o["b"] = std::move(a);
                    return Value(std::move(o));
                }
            }
            o["c"] = expr(i->getCond());
            o["then"] = stmt(i->getThen());
            o["else"] = stmt(i->getElse());
        } else if (auto *f = dyn_cast<ForStmt>(s)) {
            o["s"] = "for";
            o["init"] = stmt(f->getInit());
            if (f->getConditionVariable())
                o["cv"] = vardecl(f->getConditionVariable());
            o["c"] = expr(f->getCond());
            o["inc"] = expr(f->getInc());
            o["body"] = stmt(f->getBody());
        } else if (auto *f = dyn_cast<CXXForRangeStmt>(s)) {
            o["s"] = "rfor";
            o["init"] = stmt(f->getInit());
            o["range"] = stmt(f->getRangeStmt());
            o["begin"] = stmt(f->getBeginStmt());
            o["end"] = stmt(f->getEndStmt());
            o["c"] = expr(f->getCond());
            o["inc"] = expr(f->getInc());
            o["var"] = stmt(f->getLoopVarStmt());
            o["body"] = stmt(f->getBody());
        } else if (auto *w = dyn_cast<WhileStmt>(s)) {
            o["s"] = "while";
            if (w->getConditionVariable())
                o["cv"] = vardecl(w->getConditionVariable());
            o["c"] = expr(w->getCond());
            o["body"] = stmt(w->getBody());
        } else if (auto *w = dyn_cast<DoStmt>(s)) {
            o["s"] = "do";
            o["c"] = expr(w->getCond());
            o["body"] = stmt(w->getBody());
        } else if (auto *r = dyn_cast<ReturnStmt>(s)) {
            o["s"] = "return";
            if (r->getRetValue())
                o["x"] = expr(r->getRetValue());
        } else if (isa<BreakStmt>(s)) {
            o["s"] = "break";
        } else if (isa<ContinueStmt>(s)) {
            o["s"] = "continue";
        } else if (isa<NullStmt>(s)) {
            o["s"] = "null";
        } else if (auto *t = dyn_cast<CXXTryStmt>(s)) {
            o["s"] = "try";
            o["body"] = stmt(t->getTryBlock());
            Array a;
            for (unsigned n = 0; n < t->getNumHandlers(); ++n) {
                auto *h = t->getHandler(n);
                Object ho;
                if (h->getExceptionDecl()) {
                    ho["var"] = vardecl(h->getExceptionDecl());
                    ho["t"] = type(h->getCaughtType().getNonReferenceType().getUnqualifiedType());
                }
                ho["body"] = stmt(h->getHandlerBlock());
                a.push_back(std::move(ho));
            }
            o["h"] = std::move(a);
        } else if (auto *sw = dyn_cast<SwitchStmt>(s)) {
            o["s"] = "switch";
            if (sw->getInit())
                o["init"] = stmt(sw->getInit());
            if (sw->getConditionVariable())
                o["cv"] = vardecl(sw->getConditionVariable());
            o["c"] = expr(sw->getCond());
            o["body"] = stmt(sw->getBody());
        } else if (auto *c = dyn_cast<CaseStmt>(s)) {
            o["s"] = "case";
            o["v"] = expr(c->getLHS());
            if (c->getRHS())
                o["v2"] = expr(c->getRHS());
            o["b"] = stmt(c->getSubStmt());
        } else if (auto *d = dyn_cast<DefaultStmt>(s)) {
            o["s"] = "default";
            o["b"] = stmt(d->getSubStmt());
        } else if (auto *a = dyn_cast<AttributedStmt>(s)) {
            return stmt(a->getSubStmt());
        } else {
            o["s"] = "unsupported";
            o["cls"] = s->getStmtClassName();
        }
        return Value(std::move(o));
    }
    void function(const FunctionDecl *f)
    {
        const FunctionDecl *def = nullptr;
        if (!f->isDefined(def, true) || !def)
            return;
        if (def->isDependentContext() || def->isTemplated())
            return;
        if (!inRepo(def))
            return;
        if (!def->getBody() && !isa<CXXConstructorDecl>(def))
            return;
        const auto fid = id(f);
        if (!dumped.insert(fid).second)
            return;
        auto o = *fnref(f).getAsObject();
        o["file"] = file(def->getLocation());
        o["line"] = line(def->getLocation());
        o["endline"] = line(def->getEndLoc());
        {
            std::string s;
            llvm::raw_string_ostream os(s);
            def->getNameForDiagnostic(os, policy, true);
            o["diag"] = os.str();
        }
        Array ps;
        for (auto *p : def->parameters())
        {
            Object po{ { "id", id(p) }, { "name", p->getNameAsString() }, { "t", type(p->getType()) } };
            if (p->hasDefaultArg() && !p->hasUnparsedDefaultArg()) {
                const Expr *d = p->hasUninstantiatedDefaultArg() ? p->getUninstantiatedDefaultArg() : p->getDefaultArg();
                Expr::EvalResult r;
                if (d && !d->isValueDependent() && !d->isTypeDependent() && p->getType()->isIntegerType() && d->EvaluateAsInt(r, ctx) && r.Val.getInt().isRepresentableByInt64())
                    po["def"] = r.Val.getInt().getExtValue();
            }
            ps.push_back(std::move(po));
        }
        // parameter ids of the first declaration may differ, keep those of the definition
        o["params"] = std::move(ps);
        if (auto *c = dyn_cast<CXXConstructorDecl>(def)) {
            Array inits;
            for (auto *i : c->inits()) {
                Object io;
                if (i->isBaseInitializer())
                    io["base"] = type(QualType(i->getBaseClass(), 0));
                else if (i->isMemberInitializer())
                    io["mem"] = i->getMember()->getNameAsString();
                else if (i->isDelegatingInitializer())
                    io["deleg"] = true;
                io["x"] = expr(i->getInit());
                inits.push_back(std::move(io));
            }
            o["inits"] = std::move(inits);
        }
        if (def->getBody())
            o["body"] = stmt(def->getBody());
        functions[std::to_string(fid)] = std::move(o);
    }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
    explicit Visitor(Dumper &d)
        : d(d)
    {
    }
    Dumper &d;
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool VisitFunctionDecl(FunctionDecl *f)
    {
        if (f->isThisDeclarationADefinition() && !f->isTemplated() && d.inRepo(f))
            d.function(f);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *r)
    {
        if (r->isThisDeclarationADefinition() && !r->isDependentContext() && d.inRepo(r))
            d.type(d.ctx.getRecordType(r));
        return true;
    }
};

class Consumer : public ASTConsumer {
public:
    void HandleTranslationUnit(ASTContext &ctx) override
    {
        if (ctx.getDiagnostics().hasErrorOccurred()) {
            ++g_errors;
        }
        Dumper d(ctx);
        Visitor(d).TraverseDecl(ctx.getTranslationUnitDecl());
        Object root;
        root["functions"] = std::move(d.functions);
        root["types"] = std::move(d.types);
        root["records"] = std::move(d.records);
        root["errors"] = g_errors;
        std::error_code ec;
        llvm::raw_fd_ostream os(g_out, ec);
        os << Value(std::move(root));
    }
};

class Action : public ASTFrontendAction {
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override { return std::make_unique<Consumer>(); }
};
} // namespace

// usage: rrv-extract OUT.json PREFIX[,PREFIX...] SOURCE -- CLANG_ARGS...
int main(int argc, const char **argv)
{
    if (argc < 5) {
        llvm::errs() << "usage: rrv-extract OUT.json PREFIX[,PREFIX...] SOURCE -- CLANG_ARGS...\n";
        return 2;
    }
    g_out = argv[1];
    llvm::StringRef prefixes(argv[2]);
    llvm::SmallVector<llvm::StringRef, 4> parts;
    prefixes.split(parts, ',');
    for (auto p : parts)
        g_prefixes.push_back(p.str());
    std::string source = argv[3];
    std::vector<std::string> args;
    for (int i = 5; i < argc; ++i)
        args.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", args);
    tooling::ClangTool tool(db, { source });
    const int rc = tool.run(tooling::newFrontendActionFactory<Action>().get());
    return rc || g_errors ? 1 : 0;
}
