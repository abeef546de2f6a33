// AST exporter: turns the real, instantiated code of a translation unit into JSON.
// Everything below is mechanical; nothing is rewritten.  What is dropped: source
// comments, implicit no-op casts, parentheses, temporaries' lifetimes (destructors).
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include <deque>
#include <map>
#include <set>
using namespace clang;
using namespace llvm;
namespace json = llvm::json;

static cl::OptionCategory Cat("export options");
static cl::opt<std::string> OutFile("o", cl::desc("output"), cl::cat(Cat));
static cl::list<std::string> Roots("root", cl::desc("path prefixes whose functions are exported"), cl::cat(Cat));

struct Exporter {
    ASTContext& C;
    std::map<const void*, int64_t> ids;
    std::map<std::string, int> typeIdx;
    json::Array types;
    std::deque<const FunctionDecl*> queue;
    std::set<const FunctionDecl*> queued;
    std::map<const CXXRecordDecl*, bool> recDone;
    std::deque<const CXXRecordDecl*> recQueue;
    PrintingPolicy PP;
    Exporter(ASTContext& C) : C(C), PP(C.getLangOpts())
    {
        PP.SuppressTagKeyword = true;
        PP.Bool = true;
        PP.SuppressUnwrittenScope = true;
        PP.PrintCanonicalTypes = true;
        PP.FullyQualifiedName = true;
    }

    int64_t id(const void* p)
    {
        auto it = ids.find(p);
        if (it != ids.end())
            return it->second;
        int64_t n = ids.size() + 1;
        ids[p] = n;
        return n;
    }
    std::string fileOf(SourceLocation l)
    {
        auto& SM = C.getSourceManager();
        l = SM.getExpansionLoc(l);
        auto f = SM.getFilename(l);
        return f.str();
    }
    bool inRoots(const Decl* D)
    {
        std::string f = fileOf(D->getLocation());
        for (auto& r : Roots)
            if (f.compare(0, r.size(), r) == 0)
                return true;
        return false;
    }
    std::string loc(SourceLocation l)
    {
        auto& SM = C.getSourceManager();
        l = SM.getExpansionLoc(l);
        if (l.isInvalid())
            return "";
        return SM.getFilename(l).str() + ":" + std::to_string(SM.getSpellingLineNumber(l));
    }
    std::string qname(const NamedDecl* D)
    {
        std::string s;
        raw_string_ostream os(s);
        D->printQualifiedName(os, PP);
        return os.str();
    }
    json::Value targ(const TemplateArgument& A)
    {
        switch (A.getKind()) {
        case TemplateArgument::Type:
            return type(A.getAsType());
        case TemplateArgument::Integral: {
            SmallString<16> s;
            A.getAsIntegral().toString(s);
            return json::Object{{"int", std::string(s.str())}};
        }
        case TemplateArgument::Pack: {
            json::Array a;
            for (auto& x : A.pack_elements())
                a.push_back(targ(x));
            return json::Object{{"pack", std::move(a)}};
        }
        default: {
            std::string s;
            raw_string_ostream os(s);
            A.print(PP, os, true);
            return json::Object{{"other", os.str()}};
        }
        }
    }
    json::Value targs(const TemplateArgumentList* L)
    {
        json::Array a;
        if (L)
            for (auto& x : L->asArray())
                a.push_back(targ(x));
        return std::move(a);
    }
    int type(QualType T0)
    {
        QualType T = T0.getCanonicalType();
        bool cst = T.isConstQualified();
        std::string key = T.getAsString(PP);
        if (auto* RT = T->getAs<RecordType>())
            key += "#" + std::to_string(id(RT->getDecl()->getCanonicalDecl()));
        auto it = typeIdx.find(key);
        if (it != typeIdx.end())
            return it->second;
        int n = types.size();
        typeIdx[key] = n;
        types.push_back(nullptr);
        json::Object o;
        o["s"] = T.getAsString(PP);
        o["const"] = cst;
        if (T->isReferenceType()) {
            o["k"] = "ref";
            o["rv"] = T->isRValueReferenceType();
            o["to"] = type(T->getPointeeType());
        }
        else if (T->isPointerType()) {
            o["k"] = "ptr";
            o["to"] = type(T->getPointeeType());
        }
        else if (T->isBooleanType())
            o["k"] = "bool";
        else if (T->isEnumeralType() && T->isIntegralOrEnumerationType()) {
            o["k"] = "int";
            o["enum"] = true;
            o["w"] = 32;
            o["sg"] = true;
        }
        else if (T->isIntegerType()) {
            o["k"] = "int";
            o["w"] = (int64_t)C.getTypeSize(T);
            o["sg"] = T->isSignedIntegerType();
        }
        else if (T->isRealFloatingType()) {
            o["k"] = "real";
            o["w"] = (int64_t)C.getTypeSize(T);
        }
        else if (T->isVoidType())
            o["k"] = "void";
        else if (T->isNullPtrType())
            o["k"] = "nullptr";
        else if (auto* AT = dyn_cast<ConstantArrayType>(T.getTypePtr())) {
            o["k"] = "array";
            o["n"] = (int64_t)AT->getSize().getZExtValue();
            o["to"] = type(AT->getElementType());
        }
        else if (T->isArrayType()) {
            o["k"] = "array";
            o["to"] = type(cast<clang::ArrayType>(T.getTypePtr())->getElementType());
        }
        else if (T->isFunctionType())
            o["k"] = "func";
        else if (auto* RT = T->getAs<RecordType>()) {
            o["k"] = "rec";
            auto* D = RT->getDecl();
            o["name"] = qname(D);
            o["rid"] = id(D->getCanonicalDecl());
            if (auto* RD = dyn_cast<CXXRecordDecl>(D)) {
                if (RD->isLambda())
                    o["lambda"] = true;
                if (auto* S = dyn_cast<ClassTemplateSpecializationDecl>(RD))
                    o["targs"] = targs(&S->getTemplateArgs());
                if (!recDone.count(cast<CXXRecordDecl>(RD->getCanonicalDecl()))) {
                    recDone[cast<CXXRecordDecl>(RD->getCanonicalDecl())] = true;
                    recQueue.push_back(RD);
                }
            }
        }
        else if (T->isDependentType())
            o["k"] = "dependent";
        else
            o["k"] = "other";
        types[n] = std::move(o);
        return n;
    }

    void want(const FunctionDecl* F)
    {
        const FunctionDecl* D = nullptr;
        if (!F->hasBody(D))
            return;
        if (D->isDependentContext())
            return;
        if (queued.insert(D).second)
            queue.push_back(D);
    }

    // reference to a function: id of the definition if it is (or will be) exported
    json::Value fref(const FunctionDecl* F)
    {
        json::Object o;
        const FunctionDecl* D = nullptr;
        if (F->hasBody(D) && !D->isDependentContext()) {
            o["fid"] = id(D);
            if (inRoots(D) || (D->isDefaulted() && false))
                want(D);
            else
                o["ext"] = true;
        }
        else {
            o["fid"] = id(F->getCanonicalDecl());
            o["decl"] = true;
        }
        o["name"] = qname(F);
        if (F->isImplicit() || F->isDefaulted())
            o["implicit"] = true;
        if (auto* TA = F->getTemplateSpecializationArgs())
            o["targs"] = targs(TA);
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            o["cls"] = type(C.getRecordType(M->getParent()));
            if (M->isStatic())
                o["static"] = true;
            if (M->isConst())
                o["const"] = true;
            if (M->isVirtual())
                o["virtual"] = true;
            if (auto* CD = dyn_cast<CXXConstructorDecl>(M)) {
                o["ctor"] = true;
                if (CD->isCopyConstructor())
                    o["copy"] = true;
                if (CD->isMoveConstructor())
                    o["move"] = true;
            }
            if (isa<CXXConversionDecl>(M))
                o["conv"] = true;
            if (M->isCopyAssignmentOperator() || M->isMoveAssignmentOperator())
                o["assignop"] = true;
        }
        json::Array pt;
        for (auto* p : F->parameters())
            pt.push_back(type(p->getType()));
        o["ptypes"] = std::move(pt);
        o["ret"] = type(F->getReturnType());
        return std::move(o);
    }

    json::Value exprs(ArrayRef<const Expr*> a)
    {
        json::Array r;
        for (auto* e : a)
            r.push_back(expr(e));
        return std::move(r);
    }
    template <typename It>
    json::Value args(It b, It e)
    {
        json::Array r;
        for (; b != e; ++b)
            r.push_back(expr(*b));
        return std::move(r);
    }

    json::Value expr(const Expr* E)
    {
        if (!E)
            return nullptr;
        if (auto* X = dyn_cast<ParenExpr>(E))
            return expr(X->getSubExpr());
        if (auto* X = dyn_cast<ExprWithCleanups>(E))
            return expr(X->getSubExpr());
        if (auto* X = dyn_cast<ConstantExpr>(E))
            return expr(X->getSubExpr());
        if (auto* X = dyn_cast<MaterializeTemporaryExpr>(E)) {
            json::Object o{{"k", "temp"}, {"e", expr(X->getSubExpr())}, {"t", type(E->getType())}};
            return std::move(o);
        }
        if (auto* X = dyn_cast<CXXBindTemporaryExpr>(E))
            return expr(X->getSubExpr());
        if (auto* X = dyn_cast<SubstNonTypeTemplateParmExpr>(E))
            return expr(X->getReplacement());
        if (auto* X = dyn_cast<CXXDefaultArgExpr>(E))
            return expr(X->getExpr());
        if (auto* X = dyn_cast<CXXDefaultInitExpr>(E))
            return expr(X->getExpr());
        json::Object o;
        o["t"] = type(E->getType());
        if (E->isLValue())
            o["lv"] = true;
        o["l"] = loc(E->getExprLoc());
        if (auto* X = dyn_cast<IntegerLiteral>(E)) {
            SmallString<32> s;
            X->getValue().toString(s, 10, E->getType()->isSignedIntegerType());
            o["k"] = "int";
            o["v"] = std::string(s.str());
        }
        else if (auto* X = dyn_cast<FloatingLiteral>(E)) {
            o["k"] = "real";
            // exact decimal value of the binary constant is not what is meant; keep both
            SmallString<64> s;
            X->getValue().toString(s, 40, 0, false);
            auto& SM = C.getSourceManager();
            std::string src = std::string(Lexer::getSourceText(
                CharSourceRange::getTokenRange(SM.getSpellingLoc(E->getBeginLoc()), SM.getSpellingLoc(E->getEndLoc())), SM, C.getLangOpts()));
            o["v"] = std::string(s.str());
            o["src"] = src;
        }
        else if (auto* X = dyn_cast<CXXBoolLiteralExpr>(E)) {
            o["k"] = "bool";
            o["v"] = X->getValue();
        }
        else if (auto* X = dyn_cast<clang::StringLiteral>(E)) {
            o["k"] = "str";
            o["v"] = X->getString().str();
        }
        else if (auto* X = dyn_cast<CharacterLiteral>(E)) {
            o["k"] = "int";
            o["v"] = std::to_string(X->getValue());
        }
        else if (isa<CXXNullPtrLiteralExpr>(E))
            o["k"] = "nullptr";
        else if (isa<CXXThisExpr>(E))
            o["k"] = "this";
        else if (auto* X = dyn_cast<DeclRefExpr>(E)) {
            auto* D = X->getDecl();
            if (auto* F = dyn_cast<FunctionDecl>(D)) {
                o["k"] = "fref";
                o["f"] = fref(F);
            }
            else if (auto* EC = dyn_cast<EnumConstantDecl>(D)) {
                o["k"] = "int";
                SmallString<32> s;
                EC->getInitVal().toString(s, 10);
                o["v"] = std::string(s.str());
                o["enum"] = qname(EC);
            }
            else {
                o["k"] = "var";
                o["id"] = id(D->getCanonicalDecl());
                o["name"] = D->getNameAsString();
                if (auto* V = dyn_cast<VarDecl>(D)) {
                    if (V->hasGlobalStorage() && !V->isStaticLocal()) {
                        o["global"] = qname(V);
                        const VarDecl* DV = nullptr;
                        const Expr* I = V->getAnyInitializer(DV);
                        if (I && (V->isConstexpr() || V->getType().isConstQualified()) && !I->isValueDependent())
                            o["init"] = expr(I);
                    }
                    if (V->isStaticLocal())
                        o["staticlocal"] = true;
                }
                else if (auto* B = dyn_cast<BindingDecl>(D)) {
                    o["binding"] = true;
                }
            }
        }
        else if (auto* X = dyn_cast<MemberExpr>(E)) {
            auto* D = X->getMemberDecl();
            if (auto* F = dyn_cast<FunctionDecl>(D)) {
                o["k"] = "mfref";
                o["f"] = fref(F);
                o["base"] = expr(X->getBase());
                o["arrow"] = X->isArrow();
            }
            else if (auto* V = dyn_cast<VarDecl>(D)) {
                o["k"] = "var";
                o["id"] = id(D->getCanonicalDecl());
                o["name"] = D->getNameAsString();
                o["global"] = qname(V);
            }
            else {
                o["k"] = "mem";
                o["base"] = expr(X->getBase());
                o["arrow"] = X->isArrow();
                o["name"] = D->getNameAsString();
                o["id"] = id(D->getCanonicalDecl());
            }
        }
        else if (auto* X = dyn_cast<CXXMemberCallExpr>(E)) {
            o["k"] = "mcall";
            auto* M = X->getMethodDecl();
            if (!M) {
                o["k"] = "unsup";
                o["cls"] = "member pointer call";
                return std::move(o);
            }
            o["f"] = fref(M);
            o["obj"] = expr(X->getImplicitObjectArgument());
            auto* ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens());
            if (ME) {
                o["arrow"] = ME->isArrow();
                if (ME->hasQualifier())
                    o["qual"] = true;
            }
            o["args"] = args(X->arg_begin(), X->arg_end());
        }
        else if (auto* X = dyn_cast<CXXOperatorCallExpr>(E)) {
            o["k"] = "opcall";
            o["op"] = getOperatorSpelling(X->getOperator());
            if (auto* F = X->getDirectCallee())
                o["f"] = fref(F);
            o["args"] = args(X->arg_begin(), X->arg_end());
        }
        else if (auto* X = dyn_cast<CallExpr>(E)) {
            o["k"] = "call";
            if (auto* F = X->getDirectCallee())
                o["f"] = fref(F);
            else
                o["callee"] = expr(X->getCallee());
            o["args"] = args(X->arg_begin(), X->arg_end());
        }
        else if (auto* X = dyn_cast<LambdaExpr>(E)) {
            o["k"] = "lambda";
            auto* R = X->getLambdaClass();
            o["rid"] = id(R->getCanonicalDecl());
            json::Array caps;
            auto init = X->capture_init_begin();
            for (auto& c : X->captures()) {
                json::Object co;
                if (c.capturesThis())
                    co["this"] = true, co["byref"] = c.getCaptureKind() == LCK_This;
                else if (c.capturesVariable()) {
                    co["id"] = id(c.getCapturedVar()->getCanonicalDecl());
                    co["name"] = c.getCapturedVar()->getNameAsString();
                    co["byref"] = c.getCaptureKind() == LCK_ByRef;
                    co["initcap"] = c.getCapturedVar()->isInitCapture();
                }
                co["init"] = expr(*init);
                ++init;
                caps.push_back(std::move(co));
            }
            o["caps"] = std::move(caps);
            if (R->isGenericLambda()) {
                json::Array specs;
                if (auto* FT = R->getDependentLambdaCallOperator())
                    for (auto* S : FT->specializations()) {
                        want(S);
                        specs.push_back(id(S));
                    }
                o["generic"] = std::move(specs);
            }
            else {
                want(X->getCallOperator());
                o["fid"] = id(X->getCallOperator());
            }
        }
        else if (auto* X = dyn_cast<CXXConstructExpr>(E)) {
            o["k"] = "construct";
            o["f"] = fref(X->getConstructor());
            o["args"] = args(X->arg_begin(), X->arg_end());
            if (isa<CXXTemporaryObjectExpr>(E))
                o["tmp"] = true;
            if (X->isListInitialization())
                o["list"] = true;
        }
        else if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E))
            o["k"] = "zeroinit";
        else if (auto* X = dyn_cast<InitListExpr>(E)) {
            o["k"] = "initlist";
            { json::Array r; for (unsigned q = 0; q < X->getNumInits(); ++q) r.push_back(expr(X->getInit(q))); o["args"] = std::move(r); }
        }
        else if (auto* X = dyn_cast<CXXStdInitializerListExpr>(E)) {
            o["k"] = "stdinitlist";
            o["e"] = expr(X->getSubExpr());
        }
        else if (auto* X = dyn_cast<BinaryOperator>(E)) {
            o["k"] = X->isAssignmentOp() ? (X->isCompoundAssignmentOp() ? "cassign" : "assign") : "bin";
            if (X->isCompoundAssignmentOp()) {
                o["op"] = BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(X->getOpcode())).str();
                o["ct"] = type(cast<CompoundAssignOperator>(X)->getComputationResultType());
            }
            else
                o["op"] = X->getOpcodeStr().str();
            o["a"] = expr(X->getLHS());
            o["b"] = expr(X->getRHS());
        }
        else if (auto* X = dyn_cast<UnaryOperator>(E)) {
            o["k"] = "un";
            o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
            o["post"] = X->isPostfix();
            o["a"] = expr(X->getSubExpr());
        }
        else if (auto* X = dyn_cast<ConditionalOperator>(E)) {
            o["k"] = "cond";
            o["c"] = expr(X->getCond());
            o["a"] = expr(X->getTrueExpr());
            o["b"] = expr(X->getFalseExpr());
        }
        else if (auto* X = dyn_cast<CastExpr>(E)) {
            switch (X->getCastKind()) {
            case CK_LValueToRValue: {
                json::Object r{{"k", "rval"}, {"e", expr(X->getSubExpr())}, {"t", type(E->getType())}};
                return std::move(r);
            }
            case CK_NoOp:
                return expr(X->getSubExpr());
            case CK_FunctionToPointerDecay:
                return expr(X->getSubExpr());
            case CK_UserDefinedConversion:
            case CK_ConstructorConversion:
                return expr(X->getSubExpr());
            default:
                o["k"] = "cast";
                o["ck"] = X->getCastKindName();
                o["e"] = expr(X->getSubExpr());
                if (isa<ExplicitCastExpr>(E))
                    o["explicit"] = true;
            }
        }
        else if (auto* X = dyn_cast<ArraySubscriptExpr>(E)) {
            o["k"] = "index";
            o["a"] = expr(X->getBase());
            o["i"] = expr(X->getIdx());
        }
        else if (auto* X = dyn_cast<CXXThrowExpr>(E)) {
            o["k"] = "throw";
            o["e"] = expr(X->getSubExpr());
        }
        else if (auto* X = dyn_cast<CXXNewExpr>(E)) {
            o["k"] = "unsup";
            o["cls"] = "new";
        }
        else if (auto* X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
            Expr::EvalResult R;
            if (X->EvaluateAsInt(R, C)) {
                o["k"] = "int";
                SmallString<32> s;
                R.Val.getInt().toString(s, 10);
                o["v"] = std::string(s.str());
            }
            else {
                o["k"] = "unsup";
                o["cls"] = "sizeof";
            }
        }
        else if (auto* X = dyn_cast<PredefinedExpr>(E)) {
            o["k"] = "str";
            o["v"] = "";
        }
        else if (auto* X = dyn_cast<OpaqueValueExpr>(E)) {
            return expr(X->getSourceExpr());
        }
        else {
            o["k"] = "unsup";
            o["cls"] = E->getStmtClassName();
        }
        return std::move(o);
    }

    json::Value var(const VarDecl* V)
    {
        json::Object o;
        o["id"] = id(V->getCanonicalDecl());
        o["name"] = V->getNameAsString();
        o["t"] = type(V->getType());
        if (V->isStaticLocal()) {
            o["static"] = true;
            if (V->isConstexpr())
                o["constexpr"] = true;
        }
        if (V->hasInit())
            o["init"] = expr(V->getInit());
        o["l"] = loc(V->getLocation());
        return std::move(o);
    }

    json::Value stmt(const Stmt* S)
    {
        if (!S)
            return nullptr;
        if (auto* E = dyn_cast<Expr>(S)) {
            json::Object o{{"k", "expr"}, {"e", expr(E)}};
            return std::move(o);
        }
        json::Object o;
        o["l"] = loc(S->getBeginLoc());
        if (auto* X = dyn_cast<CompoundStmt>(S)) {
            o["k"] = "block";
            json::Array a;
            for (auto* s : X->body())
                a.push_back(stmt(s));
            o["b"] = std::move(a);
        }
        else if (auto* X = dyn_cast<DeclStmt>(S)) {
            o["k"] = "decl";
            json::Array a;
            for (auto* d : X->decls())
                if (auto* V = dyn_cast<VarDecl>(d))
                    a.push_back(var(V));
            o["vars"] = std::move(a);
        }
        else if (auto* X = dyn_cast<IfStmt>(S)) {
            o["k"] = "if";
            if (X->getInit())
                o["init"] = stmt(X->getInit());
            if (X->getConditionVariable())
                o["cvar"] = var(X->getConditionVariable());
            o["c"] = expr(X->getCond());
            o["a"] = stmt(X->getThen());
            o["b"] = stmt(X->getElse());
        }
        else if (auto* X = dyn_cast<CXXTryStmt>(S)) {
            o["k"] = "try";
            o["body"] = stmt(X->getTryBlock());
            json::Array a;
            for (unsigned i = 0; i < X->getNumHandlers(); i++) {
                auto* H = X->getHandler(i);
                json::Object h;
                if (H->getExceptionDecl()) {
                    h["t"] = type(H->getCaughtType());
                    if (H->getExceptionDecl()->getIdentifier())
                        h["var"] = var(H->getExceptionDecl());
                }
                h["body"] = stmt(H->getHandlerBlock());
                a.push_back(std::move(h));
            }
            o["handlers"] = std::move(a);
        }
        else if (auto* X = dyn_cast<ForStmt>(S)) {
            o["k"] = "for";
            o["init"] = stmt(X->getInit());
            o["c"] = expr(X->getCond());
            o["inc"] = expr(X->getInc());
            o["body"] = stmt(X->getBody());
        }
        else if (auto* X = dyn_cast<WhileStmt>(S)) {
            o["k"] = "while";
            o["c"] = expr(X->getCond());
            o["body"] = stmt(X->getBody());
        }
        else if (auto* X = dyn_cast<DoStmt>(S)) {
            o["k"] = "do";
            o["c"] = expr(X->getCond());
            o["body"] = stmt(X->getBody());
        }
        else if (auto* X = dyn_cast<CXXForRangeStmt>(S)) {
            o["k"] = "rangefor";
            o["range"] = expr(X->getRangeInit());
            o["var"] = var(X->getLoopVariable());
            o["body"] = stmt(X->getBody());
        }
        else if (auto* X = dyn_cast<ReturnStmt>(S)) {
            o["k"] = "return";
            o["e"] = expr(X->getRetValue());
        }
        else if (isa<BreakStmt>(S))
            o["k"] = "break";
        else if (isa<ContinueStmt>(S))
            o["k"] = "continue";
        else if (isa<NullStmt>(S))
            o["k"] = "null";
        else if (auto* X = dyn_cast<SwitchStmt>(S)) {
            o["k"] = "unsup";
            o["cls"] = "switch";
        }
        else {
            o["k"] = "unsup";
            o["cls"] = S->getStmtClassName();
        }
        return std::move(o);
    }

    json::Value func(const FunctionDecl* F)
    {
        json::Object o;
        o["fid"] = id(F);
        o["ref"] = fref(F);
        o["name"] = qname(F);
        o["l"] = loc(F->getLocation());
        json::Array ps;
        for (auto* p : F->parameters()) {
            json::Object po;
            po["id"] = id(p->getCanonicalDecl());
            po["name"] = p->getNameAsString();
            po["t"] = type(p->getType());
            ps.push_back(std::move(po));
        }
        o["params"] = std::move(ps);
        o["ret"] = type(F->getReturnType());
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            if (!M->isStatic())
                o["this"] = type(C.getRecordType(M->getParent()));
            if (M->getParent()->isLambda())
                o["lambda"] = true;
        }
        if (auto* CD = dyn_cast<CXXConstructorDecl>(F)) {
            json::Array in;
            for (auto* I : CD->inits()) {
                json::Object io;
                if (I->isAnyMemberInitializer()) {
                    io["field"] = I->getAnyMember()->getNameAsString();
                    io["ft"] = type(I->getAnyMember()->getType());
                }
                else if (I->isBaseInitializer())
                    io["base"] = type(QualType(I->getBaseClass(), 0));
                else if (I->isDelegatingInitializer())
                    io["deleg"] = true;
                io["e"] = expr(I->getInit());
                in.push_back(std::move(io));
            }
            o["inits"] = std::move(in);
        }
        if (F->isDefaulted())
            o["defaulted"] = true;
        o["body"] = stmt(F->getBody());
        return std::move(o);
    }

    json::Value rec(const CXXRecordDecl* R)
    {
        json::Object o;
        o["rid"] = id(R->getCanonicalDecl());
        o["t"] = type(C.getRecordType(R));
        R = R->getDefinition();
        if (!R)
            return std::move(o);
        bool root = inRoots(R) || R->isLambda();
        o["root"] = root;
        json::Array bs;
        if (!R->isDependentType())
            for (auto& b : R->bases())
                bs.push_back(type(b.getType()));
        o["bases"] = std::move(bs);
        if (root) {
            json::Array fs;
            for (auto* f : R->fields()) {
                json::Object fo;
                fo["name"] = f->getNameAsString();
                fo["t"] = type(f->getType());
                if (f->hasInClassInitializer() && !R->isDependentType() && f->getInClassInitializer())
                    fo["init"] = expr(f->getInClassInitializer());
                fs.push_back(std::move(fo));
            }
            o["fields"] = std::move(fs);
            json::Array ms;
            if (!R->isDependentType())
                for (auto* m : R->methods()) {
                    const FunctionDecl* D = nullptr;
                    json::Object mo;
                    bool def = m->hasBody(D);
                    mo["name"] = m->getNameAsString();
                    mo["fid"] = def ? id(D) : id(m->getCanonicalDecl());
                    mo["def"] = def;
                    mo["virtual"] = m->isVirtual();
                    mo["const"] = m->isConst();
                    if (def)
                        want(D);
                    json::Array ov;
                    for (auto* om : m->overridden_methods()) {
                        const FunctionDecl* OD = nullptr;
                        ov.push_back(om->hasBody(OD) ? id(OD) : id(om->getCanonicalDecl()));
                    }
                    mo["overrides"] = std::move(ov);
                    ms.push_back(std::move(mo));
                }
            o["methods"] = std::move(ms);
        }
        return std::move(o);
    }
};

class V : public RecursiveASTVisitor<V> {
public:
    Exporter& X;
    V(Exporter& X) : X(X) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool VisitFunctionDecl(FunctionDecl* F)
    {
        if (F->isThisDeclarationADefinition() && !F->isDependentContext() && X.inRoots(F) && F->getBody())
            X.want(F);
        return true;
    }
};

class Consumer : public ASTConsumer {
public:
    void HandleTranslationUnit(ASTContext& C) override
    {
        Exporter X(C);
        V v(X);
        v.TraverseDecl(C.getTranslationUnitDecl());
        json::Array fs, rs;
        while (!X.queue.empty() || !X.recQueue.empty()) {
            while (!X.queue.empty()) {
                auto* F = X.queue.front();
                X.queue.pop_front();
                fs.push_back(X.func(F));
            }
            while (!X.recQueue.empty()) {
                auto* R = X.recQueue.front();
                X.recQueue.pop_front();
                rs.push_back(X.rec(R));
            }
        }
        json::Object o;
        o["functions"] = std::move(fs);
        o["records"] = std::move(rs);
        o["types"] = std::move(X.types);
        std::error_code EC;
        raw_fd_ostream os(OutFile, EC);
        os << json::Value(std::move(o)) << "\n";
    }
};
class Action : public ASTFrontendAction {
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, StringRef) override
    {
        CI.getDiagnostics().setSuppressAllDiagnostics(false);
        return std::make_unique<Consumer>();
    }
};

int main(int argc, const char** argv)
{
    auto P = tooling::CommonOptionsParser::create(argc, argv, Cat);
    if (!P) {
        errs() << toString(P.takeError());
        return 2;
    }
    tooling::ClangTool T(P->getCompilations(), P->getSourcePathList());
    return T.run(tooling::newFrontendActionFactory<Action>().get());
}
