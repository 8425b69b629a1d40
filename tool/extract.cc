// Fact extractor: dumps the resolved clang AST of one translation unit of the
// repository under analysis as JSON (only declarations located below the roots
// given by --root).  It judges nothing; the analyses in ../analysis do.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/Mangle.h>
#include <clang/AST/RecordLayout.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Basic/SourceManager.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Frontend/TextDiagnosticPrinter.h>
#include <clang/Index/USRGeneration.h>
#include <clang/Lex/Lexer.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>

#include <cstdlib>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> g_roots;
static std::string g_out;

namespace {

std::string real(llvm::StringRef p)
{
    char buf[PATH_MAX];
    std::string s = p.str();
    if (::realpath(s.c_str(), buf))
        return buf;
    return s;
}

class Dumper {
public:
    Dumper(ASTContext &ctx, json::OStream &os) : ctx_{ctx}, sm_{ctx.getSourceManager()}, os_{os}, names_{ctx}, pp_{ctx.getPrintingPolicy()}
    {
        pp_.SuppressTagKeyword = true;
        pp_.Bool = true;
        pp_.SuppressUnwrittenScope = true;
        pp_.SuppressInlineNamespace = true;
        pp_.PrintCanonicalTypes = true;
        pp_.TerseOutput = true;
    }

    bool in_roots(SourceLocation loc, std::string *file = nullptr)
    {
        loc = sm_.getExpansionLoc(loc);
        FileID fid = sm_.getFileID(loc);
        auto it = file_cache_.find(fid);
        if (it == file_cache_.end()) {
            std::string f;
            if (auto fe = sm_.getFileEntryRefForID(fid))
                f = real(fe->getName());
            bool in = false;
            for (auto &r : g_roots)
                if (f.compare(0, r.size(), r) == 0)
                    in = true;
            it = file_cache_.emplace(fid, std::make_pair(in, f)).first;
        }
        if (file)
            *file = it->second.second;
        return it->second.first;
    }

    int line(SourceLocation loc) { return static_cast<int>(sm_.getExpansionLineNumber(loc)); }

    std::string type_str(QualType t)
    {
        if (t.isNull())
            return "";
        return t.getCanonicalType().getAsString(pp_);
    }

    std::string qname(const NamedDecl *d)
    {
        std::string s;
        llvm::raw_string_ostream o{s};
        d->printQualifiedName(o, pp_);
        return o.str();
    }

    std::string class_name(const CXXRecordDecl *r)
    {
        if (r->isLambda())
            return "lambda@" + loc_id(r->getLocation());
        return type_str(ctx_.getTypeDeclType(r));
    }

    std::string loc_id(SourceLocation l)
    {
        std::string f;
        in_roots(l, &f);
        SourceLocation e = sm_.getExpansionLoc(l);
        auto pos = f.rfind('/');
        if (pos != std::string::npos)
            f = f.substr(pos + 1);
        return f + ":" + std::to_string(sm_.getExpansionLineNumber(e)) + ":" + std::to_string(sm_.getExpansionColumnNumber(e));
    }

    std::string fn_id(const FunctionDecl *f)
    {
        if (auto *m = dyn_cast<CXXMethodDecl>(f))
            if (m->getParent()->isLambda())
                return class_name(m->getParent()) + "::" + f->getNameAsString() + (f->isTemplateInstantiation() ? usr(f) : "");
        std::string n;
        if (!f->isTemplated() && !f->getType()->isDependentType() && f->getDeclName().getNameKind() != DeclarationName::CXXDeductionGuideName) {
            if (!isa<CXXConstructorDecl>(f) && !isa<CXXDestructorDecl>(f) && !f->isExternC())
                n = names_.getName(f);
        }
        if (n.empty())
            n = usr(f);
        return n;
    }

    std::string usr(const Decl *d)
    {
        llvm::SmallString<256> buf;
        index::generateUSRForDecl(d, buf);
        return buf.str().str();
    }

    int var_id(const ValueDecl *v)
    {
        v = cast<ValueDecl>(v->getCanonicalDecl());
        auto it = vars_.find(v);
        if (it == vars_.end())
            it = vars_.emplace(v, static_cast<int>(vars_.size()) + 1).first;
        return it->second;
    }

    // ---------------------------------------------------------------- exprs
    void kind(const char *k, SourceLocation l)
    {
        os_.attribute("k", k);
        os_.attribute("l", line(l));
    }

    void etype(const Expr *e) { os_.attribute("t", type_str(e->getType())); }

    const Expr *strip(const Expr *e)
    {
        while (e) {
            if (auto *x = dyn_cast<ParenExpr>(e))
                e = x->getSubExpr();
            else if (auto *x = dyn_cast<FullExpr>(e))
                e = x->getSubExpr();
            else if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e))
                e = x->getSubExpr();
            else if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e))
                e = x->getSubExpr();
            else if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e))
                e = x->getReplacement();
            else if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e))
                e = x->getSubExpr();
            else if (auto *x = dyn_cast<OpaqueValueExpr>(e)) {
                if (!x->getSourceExpr())
                    break;
                e = x->getSourceExpr();
            }
            else if (auto *x = dyn_cast<ImplicitCastExpr>(e)) {
                if (keep_cast(x))
                    break;
                e = x->getSubExpr();
            }
            else if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
                // copy/move construction of a temporary that is elided
                if (x->isElidable() && x->getNumArgs() >= 1)
                    e = x->getArg(0);
                else
                    break;
            }
            else
                break;
        }
        return e;
    }

    bool keep_cast(const ImplicitCastExpr *x)
    {
        switch (x->getCastKind()) {
        case CK_IntegralCast: {
            // keep only value-changing candidates (narrowing or sign change)
            QualType f = x->getSubExpr()->getType(), t = x->getType();
            if (x->getSubExpr()->isValueDependent() || x->isValueDependent())
                return false;
            Expr::EvalResult r;
            if (x->getSubExpr()->EvaluateAsInt(r, ctx_))
                return false;
            if (f->isBooleanType() || !f->isIntegerType() || !t->isIntegerType())
                return false;
            if (ctx_.getTypeSize(t) < ctx_.getTypeSize(f))
                return true;
            if (f->isSignedIntegerType() && t->isUnsignedIntegerType())
                return true;
            return ctx_.getTypeSize(t) == ctx_.getTypeSize(f) && f->isUnsignedIntegerType() && t->isSignedIntegerType();
        }
        case CK_FloatingToIntegral:
            return true;
        case CK_DerivedToBase:
        case CK_UncheckedDerivedToBase:
            return false;
        default:
            return false;
        }
    }

    void expr_attr(const char *name, const Expr *e)
    {
        os_.attributeBegin(name);
        expr(e);
        os_.attributeEnd();
    }

    template<typename R>
    void args_attr(const char *name, R range)
    {
        os_.attributeBegin(name);
        os_.arrayBegin();
        for (const Expr *a : range)
            expr(a);
        os_.arrayEnd();
        os_.attributeEnd();
    }

    void callee(const FunctionDecl *f)
    {
        os_.attribute("fn", fname(f));
        os_.attribute("id", fn_id(f));
        if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
            os_.attribute("cls", class_name(m->getParent()));
            if (m->isStatic())
                os_.attribute("static", true);
            if (m->isConst())
                os_.attribute("const", true);
        }
        if (is_noexcept(f))
            os_.attribute("nx", true);
        if (f->isNoReturn())
            os_.attribute("nr", true);
        if (in_roots(f->getLocation()))
            os_.attribute("own", true);
        if (f->isTemplateInstantiation() || f->getTemplateSpecializationArgs()) {
            if (auto *ta = f->getTemplateSpecializationArgs()) {
                os_.attributeBegin("ta");
                os_.arrayBegin();
                for (auto &a : ta->asArray()) {
                    std::string s;
                    llvm::raw_string_ostream o{s};
                    a.print(pp_, o, true);
                    os_.value(o.str());
                }
                os_.arrayEnd();
                os_.attributeEnd();
            }
        }
    }

    std::string fname(const FunctionDecl *f)
    {
        if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
            if (m->getParent()->isLambda())
                return class_name(m->getParent()) + "::" + f->getNameAsString();
            PrintingPolicy p{pp_};
            return strip_targs(qname(m->getParent())) + "::" + (isa<CXXConstructorDecl>(f) ? std::string{"(ctor)"} : isa<CXXDestructorDecl>(f) ? std::string{"(dtor)"} : f->getNameAsString());
        }
        return strip_targs(qname(f));
    }

    static std::string strip_targs(const std::string &s)
    {
        // remove <...> except in operator names
        if (s.find("operator") != std::string::npos)
            return s;
        std::string o;
        int d = 0;
        for (char c : s) {
            if (c == '<')
                d++;
            else if (c == '>')
                d--;
            else if (d == 0)
                o += c;
        }
        return o;
    }

    bool is_noexcept(const FunctionDecl *f)
    {
        auto *pt = f->getType()->getAs<FunctionProtoType>();
        if (!pt)
            return false;
        auto es = pt->getExceptionSpecType();
        if (es == EST_Unevaluated || es == EST_Uninstantiated)
            return isa<CXXDestructorDecl>(f);
        if (isUnresolvedExceptionSpec(es))
            return false;
        return pt->isNothrow();
    }

    void expr(const Expr *e0)
    {
        const Expr *e = strip(e0);
        if (!e) {
            os_.value(nullptr);
            return;
        }
        os_.objectBegin();
        expr_body(e);
        os_.objectEnd();
    }

    std::string int_str(const llvm::APSInt &v)
    {
        llvm::SmallString<40> s;
        v.toString(s, 10);
        return s.str().str();
    }

    void int_val(const llvm::APSInt &v)
    {
        if (v.isRepresentableByInt64())
            os_.attribute("v", v.getExtValue());
        else
            os_.attribute("vs", int_str(v));
    }

    void expr_body(const Expr *e)
    {
        SourceLocation l = e->getExprLoc();
        // try constant folding of integral constants that are not plain
        // literals or enumerators (sizeof, constexpr variables, ...)
        if (auto *x = dyn_cast<IntegerLiteral>(e)) {
            kind("int", l);
            int_val(llvm::APSInt{x->getValue(), !x->getType()->isSignedIntegerType()});
            etype(e);
        }
        else if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e)) {
            kind("bool", l);
            os_.attribute("v", x->getValue());
        }
        else if (auto *x = dyn_cast<CharacterLiteral>(e)) {
            kind("char", l);
            os_.attribute("v", static_cast<int64_t>(x->getValue()));
        }
        else if (auto *x = dyn_cast<FloatingLiteral>(e)) {
            kind("float", l);
            os_.attribute("v", x->getValueAsApproximateDouble());
        }
        else if (auto *x = dyn_cast<StringLiteral>(e)) {
            kind("str", l);
            std::string s = x->getCharByteWidth() == 1 ? x->getBytes().str() : std::string{"<wide>"};
            os_.attribute("n", static_cast<int64_t>(s.size()));
            if (json::isUTF8(s))
                os_.attribute("v", s);
            else
                os_.attribute("v", json::fixUTF8(s));
            os_.attributeBegin("b");
            os_.arrayBegin();
            for (size_t i = 0; i < s.size() && i < 8; i++)
                os_.value(static_cast<int64_t>(static_cast<unsigned char>(s[i])));
            os_.arrayEnd();
            os_.attributeEnd();
        }
        else if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) {
            kind("null", l);
        }
        else if (isa<CXXThisExpr>(e)) {
            kind("this", l);
            etype(e);
        }
        else if (auto *x = dyn_cast<DeclRefExpr>(e)) {
            decl_ref(x);
        }
        else if (auto *x = dyn_cast<MemberExpr>(e)) {
            kind("mem", l);
            os_.attribute("f", x->getMemberDecl()->getNameAsString());
            if (auto *fd = dyn_cast<FieldDecl>(x->getMemberDecl())) {
                if (auto *r = dyn_cast<CXXRecordDecl>(fd->getParent()))
                    os_.attribute("cls", class_name(r));
                else
                    os_.attribute("cls", qname(fd->getParent()));
            }
            else if (auto *vd = dyn_cast<VarDecl>(x->getMemberDecl())) {
                os_.attribute("svar", qname(vd));
                os_.attribute("d", var_id(vd));
            }
            else if (auto *md = dyn_cast<FunctionDecl>(x->getMemberDecl())) {
                callee(md);
            }
            if (x->isArrow())
                os_.attribute("arrow", true);
            etype(e);
            expr_attr("b", x->getBase());
        }
        else if (auto *x = dyn_cast<CXXMemberCallExpr>(e)) {
            kind("call", l);
            const CXXMethodDecl *m = x->getMethodDecl();
            if (m) {
                callee(m);
                bool virt = m->isVirtual();
                if (virt) {
                    if (auto *me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens()))
                        if (me->hasQualifier())
                            virt = false;
                }
                if (virt)
                    os_.attribute("virt", true);
                expr_attr("obj", x->getImplicitObjectArgument());
                if (x->getImplicitObjectArgument()->getType()->isPointerType())
                    os_.attribute("arrow", true);
            }
            else
                expr_attr("fp", x->getCallee());
            etype(e);
            call_args(x->arguments(), m);
        }
        else if (auto *x = dyn_cast<CXXOperatorCallExpr>(e)) {
            kind("call", l);
            os_.attribute("op", getOperatorSpelling(x->getOperator()));
            const FunctionDecl *f = x->getDirectCallee();
            if (f)
                callee(f);
            etype(e);
            std::vector<const Expr *> as(x->arg_begin(), x->arg_end());
            if (f && isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic()) {
                expr_attr("obj", as[0]);
                as.erase(as.begin());
                if (cast<CXXMethodDecl>(f)->isVirtual())
                    os_.attribute("virt", true);
            }
            call_args(as, f);
        }
        else if (auto *x = dyn_cast<CallExpr>(e)) {
            const FunctionDecl *f = x->getDirectCallee();
            // std::move / std::forward are transparent
            if (f && x->getNumArgs() == 1 && f->isInStdNamespace() && f->getIdentifier() && (f->getName() == "move" || f->getName() == "forward" || f->getName() == "as_const" || f->getName() == "addressof")) {
                kind(f->getName() == "move" ? "move" : f->getName() == "addressof" ? "addr" : "fwd", l);
                etype(e);
                expr_attr("e", x->getArg(0));
                return;
            }
            // the limits of an integral type are numbers like any other
            if (auto *lim = f ? dyn_cast<CXXRecordDecl>(f->getDeclContext()) : nullptr; lim && lim->getName() == "numeric_limits") {
                Expr::EvalResult r;
                if (!e->isValueDependent() && e->getType()->isIntegralOrEnumerationType() && e->EvaluateAsInt(r, ctx_)) {
                    kind("int", l);
                    int_val(r.Val.getInt());
                    etype(e);
                    return;
                }
            }
            kind("call", l);
            if (f)
                callee(f);
            else
                expr_attr("fp", x->getCallee());
            etype(e);
            call_args(x->arguments(), f);
        }
        else if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
            kind("ctor", l);
            callee(x->getConstructor());
            if (x->getConstructor()->isCopyConstructor())
                os_.attribute("copy", true);
            if (x->getConstructor()->isMoveConstructor())
                os_.attribute("mv", true);
            if (x->isListInitialization())
                os_.attribute("list", true);
            if (x->isStdInitListInitialization())
                os_.attribute("il", true);
            etype(e);
            call_args(x->arguments(), x->getConstructor());
        }
        else if (auto *x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
            kind("ctor", l);
            callee(x->getConstructor());
            os_.attribute("inherited", true);
            etype(e);
            os_.attributeArray("args", [] {});
        }
        else if (auto *x = dyn_cast<BinaryOperator>(e)) {
            kind("bin", l);
            os_.attribute("op", x->getOpcodeStr());
            etype(e);
            expr_attr("a", x->getLHS());
            expr_attr("b", x->getRHS());
        }
        else if (auto *x = dyn_cast<UnaryOperator>(e)) {
            kind("un", l);
            std::string op = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
            if (x->isPostfix())
                op = "p" + op;
            os_.attribute("op", op);
            etype(e);
            expr_attr("a", x->getSubExpr());
        }
        else if (auto *x = dyn_cast<AbstractConditionalOperator>(e)) {
            kind("cond", l);
            etype(e);
            expr_attr("c", x->getCond());
            expr_attr("a", x->getTrueExpr());
            expr_attr("b", x->getFalseExpr());
        }
        else if (auto *x = dyn_cast<ImplicitCastExpr>(e)) {
            kind("icast", l);
            etype(e);
            os_.attribute("from", type_str(x->getSubExpr()->getType()));
            expr_attr("e", x->getSubExpr());
        }
        else if (auto *x = dyn_cast<ExplicitCastExpr>(e)) {
            kind("cast", l);
            const char *ck = "c";
            if (isa<CXXStaticCastExpr>(x))
                ck = "static";
            else if (isa<CXXDynamicCastExpr>(x))
                ck = "dynamic";
            else if (isa<CXXReinterpretCastExpr>(x))
                ck = "reinterpret";
            else if (isa<CXXConstCastExpr>(x))
                ck = "const";
            else if (isa<CXXFunctionalCastExpr>(x))
                ck = "functional";
            os_.attribute("ck", ck);
            os_.attribute("castkind", x->getCastKindName());
            etype(e);
            const Expr *s = x->getSubExpr();
            os_.attribute("from", type_str(s->IgnoreImpCasts()->getType()));
            expr_attr("e", s);
        }
        else if (auto *x = dyn_cast<LambdaExpr>(e)) {
            lambda(x);
        }
        else if (auto *x = dyn_cast<InitListExpr>(e)) {
            const InitListExpr *s = x->isSemanticForm() ? x : (x->getSemanticForm() ? x->getSemanticForm() : x);
            if (s->isTransparent() && s->getNumInits() == 1) {
                const Expr *in = strip(s->getInit(0));
                expr_body(in);
                return;
            }
            kind("init", l);
            etype(e);
            if (s->getType()->isEnumeralType())
                os_.attribute("en", true);
            // field names for aggregate init
            if (auto *rt = s->getType()->getAsCXXRecordDecl()) {
                os_.attributeBegin("fields");
                os_.arrayBegin();
                for (auto *f : rt->fields())
                    os_.value(f->getNameAsString());
                os_.arrayEnd();
                os_.attributeEnd();
            }
            args_attr("a", s->inits());
        }
        else if (auto *x = dyn_cast<CXXNewExpr>(e)) {
            kind("new", l);
            etype(e);
            os_.attribute("nt", type_str(x->getAllocatedType()));
            if (x->getNumPlacementArgs())
                args_attr("pl", x->placement_arguments());
            if (x->isArray() && x->getArraySize())
                expr_attr("size", *x->getArraySize());
            expr_attr("init", x->getInitializer());
        }
        else if (auto *x = dyn_cast<CXXDeleteExpr>(e)) {
            kind("delete", l);
            if (x->isArrayForm())
                os_.attribute("array", true);
            expr_attr("e", x->getArgument());
        }
        else if (auto *x = dyn_cast<CXXThrowExpr>(e)) {
            kind("throw", l);
            if (x->getSubExpr()) {
                os_.attribute("t", type_str(x->getSubExpr()->getType()));
                expr_attr("e", x->getSubExpr());
            }
        }
        else if (auto *x = dyn_cast<ArraySubscriptExpr>(e)) {
            kind("index", l);
            etype(e);
            expr_attr("a", x->getBase());
            expr_attr("i", x->getIdx());
        }
        else if (auto *x = dyn_cast<CXXDefaultArgExpr>(e)) {
            kind("defarg", l);
            etype(e);
            expr_attr("e", x->getExpr());
        }
        else if (auto *x = dyn_cast<CXXDefaultInitExpr>(e)) {
            kind("definit", l);
            etype(e);
            expr_attr("e", x->getExpr());
        }
        else if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
            kind("int", l);
            Expr::EvalResult r;
            if (!e->isValueDependent() && e->EvaluateAsInt(r, ctx_))
                int_val(r.Val.getInt());
            if (x->getKind() == UETT_SizeOf) {
                os_.attribute("sizeof", true);
                if (x->isArgumentType())
                    os_.attribute("st", type_str(x->getArgumentType()));
                else
                    os_.attribute("st", type_str(x->getArgumentExpr()->getType()));
            }
            etype(e);
        }
        else if (isa<CXXScalarValueInitExpr>(e) || isa<ImplicitValueInitExpr>(e)) {
            kind("zero", l);
            etype(e);
            if (e->getType()->isEnumeralType())
                os_.attribute("en", true);
        }
        else if (auto *x = dyn_cast<PredefinedExpr>(e)) {
            kind("str", l);
            os_.attribute("v", x->getFunctionName() ? x->getFunctionName()->getString() : "");
        }
        else if (auto *x = dyn_cast<CXXTypeidExpr>(e)) {
            kind("typeid", l);
            (void)x;
        }
        else if (auto *x = dyn_cast<TypeTraitExpr>(e)) {
            kind("bool", l);
            os_.attribute("v", !x->isValueDependent() && x->getValue());
        }
        else {
            kind("other", l);
            os_.attribute("c", e->getStmtClassName());
            os_.attribute("t", type_str(e->getType()));
            os_.attributeBegin("ch");
            os_.arrayBegin();
            for (const Stmt *c : e->children())
                if (c && isa<Expr>(c))
                    expr(cast<Expr>(c));
            os_.arrayEnd();
            os_.attributeEnd();
        }
    }

    template<typename R>
    void call_args(R range, const FunctionDecl *f)
    {
        os_.attributeBegin("args");
        os_.arrayBegin();
        unsigned i = 0;
        for (const Expr *a : range) {
            (void)i;
            expr(a);
            i++;
        }
        os_.arrayEnd();
        os_.attributeEnd();
        // parameters bound to non-const references / pointers-to-non-const
        if (f) {
            bool any = false;
            for (auto *p : f->parameters())
                if (mut_param(p->getType()))
                    any = true;
            if (any) {
                os_.attributeBegin("mut");
                os_.arrayBegin();
                unsigned k = 0;
                for (auto *p : f->parameters()) {
                    if (mut_param(p->getType()))
                        os_.value(static_cast<int64_t>(k));
                    k++;
                }
                os_.arrayEnd();
                os_.attributeEnd();
            }
        }
    }

    bool mut_param(QualType t)
    {
        if (t->isLValueReferenceType())
            return !t->getPointeeType().isConstQualified();
        if (t->isRValueReferenceType())
            return true;
        if (t->isPointerType())
            return !t->getPointeeType().isConstQualified();
        return false;
    }

    void decl_ref(const DeclRefExpr *x)
    {
        const ValueDecl *d = x->getDecl();
        kind("ref", x->getLocation());
        os_.attribute("n", d->getNameAsString());
        if (auto *c = dyn_cast<EnumConstantDecl>(d)) {
            os_.attribute("dk", "enumc");
            os_.attribute("qn", strip_targs(qname(d)));
            os_.attribute("enum", type_str(x->getType()));
            int_val(c->getInitVal());
        }
        else if (auto *f = dyn_cast<FunctionDecl>(d)) {
            os_.attribute("dk", "func");
            callee(f);
        }
        else if (auto *v = dyn_cast<VarDecl>(d)) {
            os_.attribute("d", var_id(v));
            if (isa<ParmVarDecl>(v))
                os_.attribute("dk", "parm");
            else if (v->hasGlobalStorage()) {
                os_.attribute("dk", v->isStaticLocal() ? "slocal" : "global");
                os_.attribute("qn", qname(v));
                if (v->getTLSKind() != VarDecl::TLS_None)
                    os_.attribute("tls", true);
                Expr::EvalResult r;
                if (!x->isValueDependent() && v->isUsableInConstantExpressions(ctx_) && x->EvaluateAsInt(r, ctx_) && r.Val.isInt())
                    int_val(r.Val.getInt());
            }
            else {
                os_.attribute("dk", "var");
                Expr::EvalResult r;
                if (!x->isValueDependent() && v->getType().isConstQualified() && v->isUsableInConstantExpressions(ctx_) && x->EvaluateAsInt(r, ctx_) && r.Val.isInt())
                    int_val(r.Val.getInt());
            }
        }
        else if (isa<FieldDecl>(d)) {
            os_.attribute("dk", "fieldref");
            os_.attribute("f", d->getNameAsString());
        }
        else if (auto *b = dyn_cast<BindingDecl>(d)) {
            os_.attribute("dk", "var");
            os_.attribute("d", var_id(b));
        }
        else {
            os_.attribute("dk", "other");
        }
        os_.attribute("t", type_str(x->getType()));
    }

    void lambda(const LambdaExpr *x)
    {
        kind("lambda", x->getBeginLoc());
        const CXXRecordDecl *r = x->getLambdaClass();
        os_.attribute("cls", class_name(r));
        os_.attributeBegin("caps");
        os_.arrayBegin();
        auto ii = x->capture_init_begin();
        for (auto c = x->capture_begin(); c != x->capture_end(); ++c, ++ii) {
            os_.objectBegin();
            if (c->capturesThis())
                os_.attribute("this", true);
            else if (c->capturesVariable()) {
                os_.attribute("n", c->getCapturedVar()->getNameAsString());
                os_.attribute("d", var_id(cast<ValueDecl>(c->getCapturedVar())));
            }
            os_.attribute("ref", c->getCaptureKind() == LCK_ByRef || c->getCaptureKind() == LCK_This);
            if (*ii)
                expr_attr("init", *ii);
            os_.objectEnd();
        }
        os_.arrayEnd();
        os_.attributeEnd();
        const CXXMethodDecl *op = x->getCallOperator();
        if (auto *ftd = x->getDependentCallOperator()) {
            os_.attribute("generic", true);
            os_.attributeBegin("insts");
            os_.arrayBegin();
            for (auto *sp : ftd->specializations())
                if (sp->hasBody()) {
                    os_.objectBegin();
                    function_payload(sp);
                    os_.objectEnd();
                }
            os_.arrayEnd();
            os_.attributeEnd();
        }
        else if (!op->isDependentContext()) {
            os_.attribute("id", fn_id(op));
            os_.attribute("ret", type_str(op->getReturnType()));
            if (is_noexcept(op))
                os_.attribute("noexcept", true);
            params_attr(op);
            os_.attributeBegin("body");
            stmt(op->getBody());
            os_.attributeEnd();
        }
    }

    // ---------------------------------------------------------------- stmts
    void stmt_attr(const char *n, const Stmt *s)
    {
        os_.attributeBegin(n);
        stmt(s);
        os_.attributeEnd();
    }

    void var_payload(const VarDecl *v)
    {
        os_.attribute("k", "var");
        os_.attribute("l", line(v->getLocation()));
        os_.attribute("d", var_id(v));
        os_.attribute("n", v->getNameAsString());
        os_.attribute("t", type_str(v->getType()));
        if (v->isStaticLocal())
            os_.attribute("static", true);
        if (v->getTLSKind() != VarDecl::TLS_None)
            os_.attribute("tls", true);
        if (auto *dd = dyn_cast<DecompositionDecl>(v)) {
            os_.attributeBegin("bind");
            os_.arrayBegin();
            for (auto *b : dd->bindings()) {
                os_.objectBegin();
                os_.attribute("n", b->getNameAsString());
                os_.attribute("d", var_id(b));
                os_.objectEnd();
            }
            os_.arrayEnd();
            os_.attributeEnd();
        }
        if (v->getInit() && !v->isInvalidDecl())
            expr_attr("init", v->getInit());
    }

    void stmt(const Stmt *s)
    {
        if (!s) {
            os_.value(nullptr);
            return;
        }
        if (auto *e = dyn_cast<Expr>(s)) {
            expr(e);
            return;
        }
        if (auto *a = dyn_cast<AttributedStmt>(s)) {
            stmt(a->getSubStmt());
            return;
        }
        os_.objectBegin();
        SourceLocation l = s->getBeginLoc();
        if (auto *x = dyn_cast<CompoundStmt>(s)) {
            kind("block", l);
            os_.attributeBegin("s");
            os_.arrayBegin();
            for (auto *c : x->body())
                stmt(c);
            os_.arrayEnd();
            os_.attributeEnd();
            os_.attribute("el", line(x->getRBracLoc()));
        }
        else if (auto *x = dyn_cast<DeclStmt>(s)) {
            kind("decl", l);
            os_.attributeBegin("vars");
            os_.arrayBegin();
            for (auto *d : x->decls())
                if (auto *v = dyn_cast<VarDecl>(d)) {
                    os_.objectBegin();
                    var_payload(v);
                    os_.objectEnd();
                }
            os_.arrayEnd();
            os_.attributeEnd();
        }
        else if (auto *x = dyn_cast<IfStmt>(s)) {
            kind("if", l);
            if (x->isConstexpr()) {
                Expr::EvalResult r;
                os_.attribute("constexpr", true);
            }
            if (x->getInit())
                stmt_attr("init", x->getInit());
            if (x->getConditionVariable()) {
                os_.attributeBegin("cv");
                os_.objectBegin();
                var_payload(x->getConditionVariable());
                os_.objectEnd();
                os_.attributeEnd();
            }
            expr_attr("c", x->getCond());
            stmt_attr("then", x->getThen());
            stmt_attr("else", x->getElse());
        }
        else if (auto *x = dyn_cast<WhileStmt>(s)) {
            kind("while", l);
            if (x->getConditionVariable()) {
                os_.attributeBegin("cv");
                os_.objectBegin();
                var_payload(x->getConditionVariable());
                os_.objectEnd();
                os_.attributeEnd();
            }
            expr_attr("c", x->getCond());
            stmt_attr("body", x->getBody());
        }
        else if (auto *x = dyn_cast<DoStmt>(s)) {
            kind("do", l);
            expr_attr("c", x->getCond());
            stmt_attr("body", x->getBody());
        }
        else if (auto *x = dyn_cast<ForStmt>(s)) {
            kind("for", l);
            stmt_attr("init", x->getInit());
            expr_attr("c", x->getCond());
            expr_attr("inc", x->getInc());
            stmt_attr("body", x->getBody());
        }
        else if (auto *x = dyn_cast<CXXForRangeStmt>(s)) {
            kind("frange", l);
            os_.attributeBegin("var");
            os_.objectBegin();
            var_payload(x->getLoopVariable());
            os_.objectEnd();
            os_.attributeEnd();
            expr_attr("range", x->getRangeInit());
            stmt_attr("body", x->getBody());
        }
        else if (auto *x = dyn_cast<SwitchStmt>(s)) {
            kind("switch", l);
            if (x->getInit())
                stmt_attr("init", x->getInit());
            os_.attribute("t", type_str(x->getCond()->IgnoreImpCasts()->getType()));
            expr_attr("c", x->getCond());
            stmt_attr("body", x->getBody());
        }
        else if (auto *x = dyn_cast<CaseStmt>(s)) {
            kind("case", l);
            expr_attr("v", x->getLHS());
            Expr::EvalResult r;
            if (!x->getLHS()->isValueDependent() && x->getLHS()->EvaluateAsInt(r, ctx_))
                os_.attribute("cv", r.Val.getInt().getExtValue());
            stmt_attr("sub", x->getSubStmt());
        }
        else if (auto *x = dyn_cast<DefaultStmt>(s)) {
            kind("default", l);
            stmt_attr("sub", x->getSubStmt());
        }
        else if (auto *x = dyn_cast<ReturnStmt>(s)) {
            kind("return", l);
            expr_attr("e", x->getRetValue());
        }
        else if (isa<BreakStmt>(s))
            kind("break", l);
        else if (isa<ContinueStmt>(s))
            kind("continue", l);
        else if (auto *x = dyn_cast<CXXTryStmt>(s)) {
            kind("try", l);
            stmt_attr("body", x->getTryBlock());
            os_.attributeBegin("handlers");
            os_.arrayBegin();
            for (unsigned i = 0; i < x->getNumHandlers(); i++) {
                auto *h = x->getHandler(i);
                os_.objectBegin();
                os_.attribute("l", line(h->getBeginLoc()));
                if (h->getExceptionDecl()) {
                    os_.attribute("t", type_str(h->getCaughtType().getNonReferenceType().getUnqualifiedType()));
                    os_.attribute("d", var_id(h->getExceptionDecl()));
                    os_.attribute("n", h->getExceptionDecl()->getNameAsString());
                }
                else
                    os_.attribute("all", true);
                stmt_attr("body", h->getHandlerBlock());
                os_.objectEnd();
            }
            os_.arrayEnd();
            os_.attributeEnd();
        }
        else if (auto *x = dyn_cast<LabelStmt>(s)) {
            kind("label", l);
            os_.attribute("n", x->getName());
            stmt_attr("sub", x->getSubStmt());
        }
        else if (auto *x = dyn_cast<GotoStmt>(s)) {
            kind("goto", l);
            os_.attribute("n", x->getLabel()->getName());
        }
        else if (isa<NullStmt>(s))
            kind("null_stmt", l);
        else {
            kind("ostmt", l);
            os_.attribute("c", s->getStmtClassName());
            os_.attributeBegin("ch");
            os_.arrayBegin();
            for (const Stmt *c : s->children())
                stmt(c);
            os_.arrayEnd();
            os_.attributeEnd();
        }
        os_.objectEnd();
    }

    // ---------------------------------------------------------------- decls
    void params_attr(const FunctionDecl *f)
    {
        os_.attributeBegin("params");
        os_.arrayBegin();
        for (auto *p : f->parameters()) {
            os_.objectBegin();
            os_.attribute("d", var_id(p));
            os_.attribute("n", p->getNameAsString());
            os_.attribute("t", type_str(p->getType()));
            if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg())
                expr_attr("def", p->getDefaultArg());
            os_.objectEnd();
        }
        os_.arrayEnd();
        os_.attributeEnd();
    }

    void function_payload(const FunctionDecl *f)
    {
        os_.attribute("id", fn_id(f));
        os_.attribute("fn", fname(f));
        std::string file;
        in_roots(f->getLocation(), &file);
        os_.attribute("file", file);
        os_.attribute("l", line(f->getLocation()));
        os_.attribute("ret", type_str(f->getReturnType()));
        params_attr(f);
        if (is_noexcept(f))
            os_.attribute("noexcept", true);
        if (f->isTemplateInstantiation())
            os_.attribute("inst", true);
        if (auto *ta = f->getTemplateSpecializationArgs()) {
            os_.attributeBegin("ta");
            os_.arrayBegin();
            for (auto &a : ta->asArray()) {
                std::string s;
                llvm::raw_string_ostream o{s};
                a.print(pp_, o, true);
                os_.value(o.str());
            }
            os_.arrayEnd();
            os_.attributeEnd();
        }
        if (f->isDeleted())
            os_.attribute("deleted", true);
        if (f->isDefaulted())
            os_.attribute("defaulted", true);
        if (f->getStorageClass() == SC_Static && !isa<CXXMethodDecl>(f))
            os_.attribute("internal", true);
        if (f->isInAnonymousNamespace())
            os_.attribute("internal", true);
        if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
            os_.attribute("cls", class_name(m->getParent()));
            if (m->isStatic())
                os_.attribute("static", true);
            if (m->isVirtual())
                os_.attribute("virt", true);
            if (m->isPureVirtual())
                os_.attribute("pure", true);
            if (m->isConst())
                os_.attribute("const", true);
            os_.attribute("access", m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private");
            if (m->size_overridden_methods()) {
                os_.attributeBegin("overrides");
                os_.arrayBegin();
                for (auto *o : m->overridden_methods()) {
                    os_.value(fn_id(o));
                }
                os_.arrayEnd();
                os_.attributeEnd();
            }
            if (auto *c = dyn_cast<CXXConstructorDecl>(f)) {
                if (c->isCopyConstructor())
                    os_.attribute("copy", true);
                if (c->isMoveConstructor())
                    os_.attribute("mv", true);
            }
            if (m->isCopyAssignmentOperator())
                os_.attribute("copyassign", true);
            if (m->isMoveAssignmentOperator())
                os_.attribute("moveassign", true);
        }
        const FunctionDecl *def = nullptr;
        if (f->hasBody(def) && def && !def->isDependentContext()) {
            if (auto *c = dyn_cast<CXXConstructorDecl>(def)) {
                os_.attributeBegin("inits");
                os_.arrayBegin();
                for (auto *i : c->inits()) {
                    os_.objectBegin();
                    if (i->isAnyMemberInitializer()) {
                        os_.attribute("f", i->getAnyMember()->getNameAsString());
                    }
                    else if (i->isBaseInitializer()) {
                        os_.attribute("base", type_str(QualType{i->getBaseClass(), 0}));
                    }
                    else if (i->isDelegatingInitializer())
                        os_.attribute("delegating", true);
                    if (i->isWritten())
                        os_.attribute("w", true);
                    os_.attribute("l", line(i->getSourceLocation()));
                    expr_attr("e", i->getInit());
                    os_.objectEnd();
                }
                os_.arrayEnd();
                os_.attributeEnd();
            }
            os_.attribute("el", line(def->getBody()->getEndLoc()));
            // parameters of the definition carry the ids used in the body
            os_.attributeBegin("dparams");
            os_.arrayBegin();
            for (auto *p : def->parameters()) {
                os_.objectBegin();
                os_.attribute("d", var_id(p));
                os_.attribute("n", p->getNameAsString());
                os_.attribute("t", type_str(p->getType()));
                os_.objectEnd();
            }
            os_.arrayEnd();
            os_.attributeEnd();
            stmt_attr("body", def->getBody());
        }
    }

    void function(const FunctionDecl *f)
    {
        os_.objectBegin();
        os_.attribute("D", "fn");
        function_payload(f);
        os_.objectEnd();
    }

    void record(const CXXRecordDecl *r)
    {
        os_.objectBegin();
        os_.attribute("D", "class");
        os_.attribute("cls", class_name(r));
        std::string file;
        in_roots(r->getLocation(), &file);
        os_.attribute("file", file);
        os_.attribute("l", line(r->getLocation()));
        if (r->isAbstract())
            os_.attribute("abstract", true);
        if (r->hasAttr<FinalAttr>())
            os_.attribute("final", true);
        os_.attributeBegin("bases");
        os_.arrayBegin();
        for (auto &b : r->bases())
            os_.value(type_str(b.getType()));
        os_.arrayEnd();
        os_.attributeEnd();
        os_.attributeBegin("fields");
        os_.arrayBegin();
        for (auto *f : r->fields()) {
            os_.objectBegin();
            os_.attribute("n", f->getNameAsString());
            os_.attribute("t", type_str(f->getType()));
            os_.attribute("l", line(f->getLocation()));
            if (f->isMutable())
                os_.attribute("mutable", true);
            if (f->isBitField())
                os_.attribute("bits", static_cast<int64_t>(f->getBitWidthValue(ctx_)));
            os_.attribute("access", f->getAccess() == AS_public ? "public" : f->getAccess() == AS_protected ? "protected" : "private");
            if (f->hasInClassInitializer() && f->getInClassInitializer())
                expr_attr("init", f->getInClassInitializer());
            os_.objectEnd();
        }
        os_.arrayEnd();
        os_.attributeEnd();
        auto sm = [&](const char *n, bool has) { if (has) os_.attribute(n, true); };
        bool cc_del = true, cc_seen = false, ca_del = true, ca_seen = false;
        for (auto *c : r->ctors())
            if (c->isCopyConstructor()) {
                cc_seen = true;
                cc_del = c->isDeleted();
            }
        for (auto *m : r->methods())
            if (m->isCopyAssignmentOperator()) {
                ca_seen = true;
                ca_del = m->isDeleted();
            }
        sm("copy_ctor_deleted", (cc_seen && cc_del) || (!cc_seen && r->defaultedCopyConstructorIsDeleted()));
        sm("copy_assign_deleted", (ca_seen && ca_del));
        sm("user_dtor", r->hasUserDeclaredDestructor());
        sm("trivial_dtor", r->hasTrivialDestructor());
        if (r->getDestructor() && r->getDestructor()->isVirtual())
            os_.attribute("virtual_dtor", true);
        os_.objectEnd();
    }

    void enumeration(const EnumDecl *e)
    {
        os_.objectBegin();
        os_.attribute("D", "enum");
        os_.attribute("enum", type_str(ctx_.getTypeDeclType(e)));
        std::string file;
        in_roots(e->getLocation(), &file);
        os_.attribute("file", file);
        os_.attribute("l", line(e->getLocation()));
        os_.attribute("u", type_str(e->getIntegerType()));
        os_.attributeBegin("c");
        os_.arrayBegin();
        for (auto *c : e->enumerators()) {
            os_.arrayBegin();
            os_.value(c->getNameAsString());
            os_.value(c->getInitVal().getExtValue());
            os_.arrayEnd();
        }
        os_.arrayEnd();
        os_.attributeEnd();
        os_.objectEnd();
    }

    void global(const VarDecl *v)
    {
        os_.objectBegin();
        os_.attribute("D", "gvar");
        std::string file;
        in_roots(v->getLocation(), &file);
        os_.attribute("file", file);
        os_.attribute("qn", qname(v));
        if (v->isStaticDataMember())
            os_.attribute("member", true);
        var_payload(v);
        os_.objectEnd();
    }

    ASTContext &ctx_;
    SourceManager &sm_;
    json::OStream &os_;
    ASTNameGenerator names_;
    PrintingPolicy pp_;
    std::map<FileID, std::pair<bool, std::string>> file_cache_;
    std::map<const ValueDecl *, int> vars_;
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
    Visitor(Dumper &d) : d_{d} {}

    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }

    bool VisitFunctionDecl(FunctionDecl *f)
    {
        if (!d_.in_roots(f->getLocation()))
            return true;
        if (f->isTemplated() || f->isDependentContext())
            return true;
        if (auto *m = dyn_cast<CXXMethodDecl>(f))
            if (m->getParent()->isLambda())
                return true;
        if (isa<CXXDeductionGuideDecl>(f))
            return true;
        if (f->isImplicit() && !f->hasBody() && !isa<CXXDestructorDecl>(f))
            return true;
        const FunctionDecl *def = nullptr;
        bool has = f->hasBody(def);
        const FunctionDecl *pick = has ? def : f->getCanonicalDecl();
        if (!seen_.insert(pick).second)
            return true;
        d_.function(pick);
        return true;
    }

    bool VisitCXXRecordDecl(CXXRecordDecl *r)
    {
        if (!d_.in_roots(r->getLocation()))
            return true;
        if (!r->isThisDeclarationADefinition() || r->isDependentContext() || r->isLambda())
            return true;
        d_.record(r);
        return true;
    }

    bool VisitEnumDecl(EnumDecl *e)
    {
        if (d_.in_roots(e->getLocation()) && e->isThisDeclarationADefinition() && !e->isDependentContext())
            d_.enumeration(e);
        return true;
    }

    bool VisitVarDecl(VarDecl *v)
    {
        if (!d_.in_roots(v->getLocation()))
            return true;
        if (!v->hasGlobalStorage() || v->isStaticLocal())
            return true;
        if (v->isTemplated() || v->getDeclContext()->isDependentContext())
            return true;
        d_.global(v);
        return true;
    }

private:
    Dumper &d_;
    std::set<const FunctionDecl *> seen_;
};

class Consumer : public ASTConsumer {
public:
    explicit Consumer(CompilerInstance &ci) : ci_{ci} {}

    void HandleTranslationUnit(ASTContext &ctx) override
    {
        std::error_code ec;
        llvm::raw_fd_ostream out{g_out, ec};
        json::OStream os{out};
        Dumper d{ctx, os};
        os.objectBegin();
        // repository files that this unit includes
        os.attributeBegin("deps");
        os.arrayBegin();
        std::set<std::string> deps;
        auto &sm = ctx.getSourceManager();
        for (auto it = sm.fileinfo_begin(); it != sm.fileinfo_end(); ++it) {
            std::string f = real(it->first.getName());
            for (auto &r : g_roots)
                if (f.compare(0, r.size(), r) == 0)
                    deps.insert(f);
        }
        for (auto &f : deps)
            os.value(f);
        os.arrayEnd();
        os.attributeEnd();
        os.attribute("errors", static_cast<int64_t>(ci_.getDiagnostics().getClient()->getNumErrors()));
        os.attributeBegin("decls");
        os.arrayBegin();
        Visitor v{d};
        v.TraverseDecl(ctx.getTranslationUnitDecl());
        os.arrayEnd();
        os.attributeEnd();
        os.objectEnd();
    }

private:
    CompilerInstance &ci_;
};

class Action : public ASTFrontendAction {
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &ci, llvm::StringRef) override
    {
        return std::make_unique<Consumer>(ci);
    }
};

} // namespace

int main(int argc, char **argv)
{
    std::string file;
    std::vector<std::string> args;
    int i = 1;
    for (; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--root")
            g_roots.push_back(argv[++i]);
        else if (a == "-o")
            g_out = argv[++i];
        else if (a == "--") {
            i++;
            break;
        }
        else
            file = a;
    }
    for (; i < argc; i++)
        args.push_back(argv[i]);
    tooling::FixedCompilationDatabase db{"/", args};
    tooling::ClangTool tool{db, {file}};
    return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
