// astx: exports the type-checked, instantiated AST of the C++ code that is
// verified (functions whose definition lies below one of the given path
// prefixes) as JSON.  Nothing is rewritten: every function body is emitted as
// clang elaborated it, with implicit conversions made explicit and integral
// constant expressions evaluated.
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/ExprCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <fstream>
#include <sstream>

using namespace clang;
namespace json = llvm::json;
using json::Object;
using json::Array;
using json::Value;

static std::vector<std::string> Prefixes;
static std::string OutFile;

struct Exporter
{
    ASTContext &C;
    PrintingPolicy PP;
    std::map<const Type *, int> typeIdx;
    Array types;
    std::map<const Decl *, int> ids;
    std::set<const FunctionDecl *> seenFn;
    std::set<const CXXRecordDecl *> seenRec;
    std::vector<const CXXRecordDecl *> recQueue;
    std::vector<const FunctionDecl *> fnQueue;
    Object out;
    Array fns, recs, globals;

    explicit Exporter(ASTContext &C) : C(C), PP(C.getPrintingPolicy())
    {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
    }

    int id(const Decl *D)
    {
        D = D->getCanonicalDecl();
        auto it = ids.find(D);
        if (it != ids.end())
            return it->second;
        int n = ids.size() + 1;
        ids[D] = n;
        return n;
    }

    bool interesting(SourceLocation L)
    {
        if (L.isInvalid())
            return false;
        SourceManager &SM = C.getSourceManager();
        auto F = SM.getFilename(SM.getExpansionLoc(L));
        for (auto &p : Prefixes)
            if (F.starts_with(p))
                return true;
        return false;
    }

    std::string loc(SourceLocation L)
    {
        SourceManager &SM = C.getSourceManager();
        PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L));
        if (P.isInvalid())
            return "?";
        return std::string(P.getFilename()) + ":" + std::to_string(P.getLine());
    }

    int type(QualType Q)
    {
        if (Q.isNull())
            return -1;
        Q = Q.getCanonicalType();
        Q = Q.getUnqualifiedType();
        const Type *T = Q.getTypePtr();
        auto it = typeIdx.find(T);
        if (it != typeIdx.end())
            return it->second;
        int n = types.size();
        typeIdx[T] = n;
        types.push_back(nullptr);
        Object o;
        if (auto *R = T->getAs<ReferenceType>())
        {
            o["k"] = "ref";
            o["to"] = type(R->getPointeeType());
            o["const"] = R->getPointeeType().isConstQualified();
            o["rv"] = T->isRValueReferenceType();
        }
        else if (auto *P = T->getAs<PointerType>())
        {
            o["k"] = "ptr";
            o["to"] = type(P->getPointeeType());
        }
        else if (T->isBooleanType())
            o["k"] = "bool";
        else if (auto *E = T->getAs<EnumType>())
        {
            o["k"] = "enum";
            o["name"] = E->getDecl()->getQualifiedNameAsString();
        }
        else if (T->isIntegerType())
        {
            o["k"] = "int";
            o["signed"] = T->isSignedIntegerType();
            o["bits"] = (int64_t)C.getTypeSize(Q);
        }
        else if (T->isRealFloatingType())
        {
            o["k"] = "real";
            o["bits"] = (int64_t)C.getTypeSize(Q);
        }
        else if (T->isVoidType())
            o["k"] = "void";
        else if (T->isNullPtrType())
            o["k"] = "nullptr";
        else if (T->isFunctionType())
            o["k"] = "fn";
        else if (auto *A = C.getAsArrayType(Q))
        {
            o["k"] = "array";
            o["to"] = type(A->getElementType());
            if (auto *CA = dyn_cast<ConstantArrayType>(A))
                o["n"] = (int64_t)CA->getSize().getZExtValue();
        }
        else if (auto *RT = T->getAs<RecordType>())
        {
            auto *RD = RT->getDecl();
            o["k"] = "rec";
            o["name"] = RD->getQualifiedNameAsString();
            if (auto *CR = dyn_cast<CXXRecordDecl>(RD))
            {
                if (CR->isLambda())
                    o["lambda"] = true;
                o["id"] = id(CR);
                if (auto *SD = dyn_cast<ClassTemplateSpecializationDecl>(CR))
                    o["args"] = targs(SD->getTemplateArgs());
                // member class of a template: remember the enclosing record
                if (interesting(CR->getLocation()))
                    queueRec(CR);
            }
        }
        else
            o["k"] = "other";
        if (n < 100000)
            o["s"] = Q.getAsString(PP).substr(0, 300);
        types[n] = std::move(o);
        return n;
    }

    Value targ(const TemplateArgument &A)
    {
        switch (A.getKind())
        {
        case TemplateArgument::Integral:
            return (int64_t)A.getAsIntegral().getExtValue();
        case TemplateArgument::Type:
            return Object{{"t", type(A.getAsType())}};
        case TemplateArgument::Pack:
        {
            Array a;
            for (auto &x : A.pack_elements())
                a.push_back(targ(x));
            return Object{{"pack", std::move(a)}};
        }
        default:
        {
            std::string s;
            llvm::raw_string_ostream os(s);
            A.print(PP, os, true);
            return Object{{"s", s}};
        }
        }
    }
    Array targs(const TemplateArgumentList &L)
    {
        Array a;
        for (auto &x : L.asArray())
            a.push_back(targ(x));
        return a;
    }

    void queueRec(const CXXRecordDecl *R)
    {
        R = R->getDefinition();
        if (!R || R->isDependentContext())
            return;
        if (seenRec.insert(R).second)
            recQueue.push_back(R);
    }

    void queueFn(const FunctionDecl *F)
    {
        if (!F || F->isDependentContext())
            return;
        const FunctionDecl *Def = nullptr;
        if (!F->hasBody(Def))
            return;
        if (!interesting(Def->getLocation()))
            return;
        if (seenFn.insert(Def).second)
            fnQueue.push_back(Def);
    }

    Value exprOrNull(const Expr *E)
    {
        if (!E)
            return nullptr;
        return expr(E);
    }

    Object callee(const FunctionDecl *F)
    {
        Object o;
        if (!F)
            return o;
        queueFn(F);
        o["name"] = F->getNameAsString();
        o["q"] = F->getQualifiedNameAsString();
        o["id"] = id(F->getCanonicalDecl());
        const FunctionDecl *Def = nullptr;
        bool own = F->hasBody(Def) && interesting(Def->getLocation()) && !F->isDependentContext();
        o["own"] = own;
        if (own)
            o["id"] = id(Def);
        if (auto *M = dyn_cast<CXXMethodDecl>(F))
        {
            o["cls"] = M->getParent()->getQualifiedNameAsString();
            o["virtual"] = M->isVirtual();
            o["static"] = M->isStatic();
        }
        Array a;
        if (auto *L = F->getTemplateSpecializationArgs())
            for (auto &x : L->asArray())
                a.push_back(targ(x));
        if (a.size())
            o["targs"] = std::move(a);
        Array pt;
        for (auto *p : F->parameters())
            pt.push_back(type(p->getType()));
        o["pt"] = std::move(pt);
        o["rt"] = type(F->getReturnType());
        return o;
    }

    // an integral constant written as such (literal, enumerator, template parameter, and sums, differences, products of these)
    static bool written(const Expr *E)
    {
        E = E->IgnoreParenImpCasts();
        if (auto *X = dyn_cast<ConstantExpr>(E))
            return written(X->getSubExpr());
        if (isa<SubstNonTypeTemplateParmExpr>(E) || isa<IntegerLiteral>(E) || isa<CXXBoolLiteralExpr>(E) || isa<CharacterLiteral>(E))
            return true;
        if (auto *X = dyn_cast<DeclRefExpr>(E))
            return isa<EnumConstantDecl>(X->getDecl());
        if (auto *X = dyn_cast<CXXDefaultArgExpr>(E))
            return written(X->getExpr());
        if (auto *X = dyn_cast<UnaryOperator>(E))
            return (X->getOpcode() == UO_Minus || X->getOpcode() == UO_Plus) && written(X->getSubExpr());
        if (auto *X = dyn_cast<BinaryOperator>(E))
            return (X->getOpcode() == BO_Add || X->getOpcode() == BO_Sub) && written(X->getLHS()) && written(X->getRHS());
        if (auto *X = dyn_cast<ExplicitCastExpr>(E))
            return written(X->getSubExpr());
        return false;
    }

    const bool generic = getenv("ASTX_GENERIC") != nullptr;

    Value expr(const Expr *E)
    {
        bool lit = generic && written(E);
        // transparent nodes
        while (true)
        {
            if (auto *X = dyn_cast<ExprWithCleanups>(E))
                E = X->getSubExpr();
            else if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E))
                E = X->getSubExpr();
            else if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E))
                E = X->getSubExpr();
            else if (auto *X = dyn_cast<ParenExpr>(E))
                E = X->getSubExpr();
            else if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E))
                E = X->getReplacement();
            else
                break;
        }
        // integral constants
        if (!E->isValueDependent() && !E->isTypeDependent() && E->isPRValue() &&
            E->getType()->isIntegralOrEnumerationType())
        {
            Expr::EvalResult R;
            if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects))
            {
                Object o;
                if (generic && !lit)
                    o["folded"] = true;
                o["k"] = E->getType()->isBooleanType() ? "bool" : "int";
                if (E->getType()->isBooleanType())
                    o["v"] = R.Val.getInt().getBoolValue();
                else if (R.Val.getInt().isSigned())
                    o["v"] = (int64_t)R.Val.getInt().getExtValue();
                else
                    o["v"] = (int64_t)R.Val.getInt().getZExtValue();
                o["t"] = type(E->getType());
                return o;
            }
        }
        if (auto *X = dyn_cast<ImplicitCastExpr>(E))
        {
            switch (X->getCastKind())
            {
            case CK_NoOp:
            case CK_LValueToRValue:
            case CK_FunctionToPointerDecay:
            case CK_UncheckedDerivedToBase:
            case CK_DerivedToBase:
            case CK_ArrayToPointerDecay:
            case CK_BuiltinFnToFnPtr:
            case CK_UserDefinedConversion:
            case CK_ConstructorConversion:
            {
                Value v = expr(X->getSubExpr());
                if (X->getCastKind() == CK_LValueToRValue)
                    return Object{{"k", "rv"}, {"e", std::move(v)}, {"t", type(E->getType())}};
                return v;
            }
            default:
                break;
            }
        }
        Object o;
        o["t"] = type(E->getType());
        o["l"] = lineOf(E->getBeginLoc());
        if (auto *X = dyn_cast<CastExpr>(E))
        {
            o["k"] = "cast";
            o["ck"] = X->getCastKindName();
            o["e"] = expr(X->getSubExpr());
            return o;
        }
        if (auto *X = dyn_cast<FloatingLiteral>(E))
        {
            o["k"] = "float";
            o["v"] = X->getValueAsApproximateDouble();
            llvm::SmallString<40> s;
            X->getValue().toString(s);
            o["s"] = s.str().str();
            return o;
        }
        if (auto *X = dyn_cast<clang::StringLiteral>(E))
        {
            o["k"] = "str";
            o["v"] = X->isOrdinary() || X->isUTF8() ? X->getString().str() : std::string("?");
            return o;
        }
        if (auto *X = dyn_cast<DeclRefExpr>(E))
        {
            const ValueDecl *D = X->getDecl();
            if (auto *F = dyn_cast<FunctionDecl>(D))
            {
                o["k"] = "fnref";
                o["f"] = callee(F);
                return o;
            }
            o["k"] = "var";
            o["name"] = D->getNameAsString();
            o["q"] = D->getQualifiedNameAsString();
            o["id"] = id(D);
            if (auto *V = dyn_cast<VarDecl>(D))
            {
                o["global"] = V->hasGlobalStorage();
                if (V->hasGlobalStorage())
                    exportGlobal(V);
            }
            if (isa<NonTypeTemplateParmDecl>(D) || isa<TemplateParamObjectDecl>(D))
                o["tparam"] = true;
            return o;
        }
        if (auto *X = dyn_cast<MemberExpr>(E))
        {
            if (auto *F = dyn_cast<FieldDecl>(X->getMemberDecl()))
            {
                o["k"] = "field";
                o["name"] = F->getNameAsString();
                o["cls"] = F->getParent()->getQualifiedNameAsString();
                o["arrow"] = X->isArrow();
                o["e"] = expr(X->getBase());
                return o;
            }
            if (auto *V = dyn_cast<VarDecl>(X->getMemberDecl()))
            {
                o["k"] = "var";
                o["name"] = V->getNameAsString();
                o["q"] = V->getQualifiedNameAsString();
                o["id"] = id(V);
                o["global"] = true;
                exportGlobal(V);
                return o;
            }
            o["k"] = "memfn";
            o["e"] = expr(X->getBase());
            o["arrow"] = X->isArrow();
            if (auto *M = dyn_cast<CXXMethodDecl>(X->getMemberDecl()))
                o["f"] = callee(M);
            return o;
        }
        if (auto *X = dyn_cast<CXXMemberCallExpr>(E))
        {
            o["k"] = "mcall";
            auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens());
            if (ME)
            {
                o["e"] = expr(ME->getBase());
                o["arrow"] = ME->isArrow();
                o["qual"] = ME->hasQualifier();
            }
            o["f"] = callee(X->getMethodDecl());
            o["a"] = args(X->arguments());
            return o;
        }
        if (auto *X = dyn_cast<CXXOperatorCallExpr>(E))
        {
            o["k"] = "opcall";
            o["op"] = getOperatorSpelling(X->getOperator());
            o["f"] = callee(X->getDirectCallee());
            o["a"] = args(X->arguments());
            return o;
        }
        if (auto *X = dyn_cast<CallExpr>(E))
        {
            o["k"] = "call";
            if (auto *F = X->getDirectCallee())
                o["f"] = callee(F);
            else
                o["fe"] = expr(X->getCallee());
            o["a"] = args(X->arguments());
            return o;
        }
        if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E))
        {
            o["k"] = "unsupported";
            o["what"] = "inherited-ctor";
            (void)X;
            return o;
        }
        if (auto *X = dyn_cast<CXXConstructExpr>(E))
        {
            o["k"] = "construct";
            auto *D = X->getConstructor();
            o["f"] = callee(D);
            o["copy"] = D->isCopyOrMoveConstructor();
            o["default"] = D->isDefaultConstructor();
            o["implicit"] = D->isImplicit() || D->isDefaulted();
            o["zeroinit"] = X->requiresZeroInitialization();
            o["list"] = X->isListInitialization();
            queueRec(D->getParent());
            o["a"] = args(X->arguments());
            return o;
        }
        if (auto *X = dyn_cast<CXXThisExpr>(E))
        {
            (void)X;
            o["k"] = "this";
            return o;
        }
        if (auto *X = dyn_cast<CXXDefaultArgExpr>(E))
            return expr(X->getExpr());
        if (auto *X = dyn_cast<CXXDefaultInitExpr>(E))
            return expr(X->getExpr());
        if (auto *X = dyn_cast<BinaryOperator>(E))
        {
            o["k"] = X->isCompoundAssignmentOp() ? "cassign" : (X->isAssignmentOp() ? "assign" : "bin");
            o["op"] = X->getOpcodeStr().str();
            o["a"] = expr(X->getLHS());
            o["b"] = expr(X->getRHS());
            if (auto *CA = dyn_cast<CompoundAssignOperator>(X))
                o["ct"] = type(CA->getComputationResultType());
            return o;
        }
        if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E))
            return expr(X->getSemanticForm());
        if (auto *X = dyn_cast<UnaryOperator>(E))
        {
            o["k"] = "un";
            o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
            o["post"] = X->isPostfix();
            o["e"] = expr(X->getSubExpr());
            return o;
        }
        if (auto *X = dyn_cast<ConditionalOperator>(E))
        {
            o["k"] = "cond";
            o["c"] = expr(X->getCond());
            o["a"] = expr(X->getTrueExpr());
            o["b"] = expr(X->getFalseExpr());
            return o;
        }
        if (auto *X = dyn_cast<ArraySubscriptExpr>(E))
        {
            o["k"] = "index";
            o["a"] = expr(X->getBase());
            o["b"] = expr(X->getIdx());
            return o;
        }
        if (auto *X = dyn_cast<LambdaExpr>(E))
        {
            o["k"] = "lambda";
            auto *OP = X->getCallOperator();
            Array caps;
            auto it = X->capture_init_begin();
            auto *R = X->getLambdaClass();
            auto fit = R->field_begin();
            for (auto &c : X->captures())
            {
                Object co;
                if (c.capturesThis())
                {
                    co["this"] = true;
                    co["byref"] = c.getCaptureKind() == LCK_This;
                }
                else if (c.capturesVariable())
                {
                    co["id"] = id(c.getCapturedVar());
                    co["byref"] = c.getCaptureKind() == LCK_ByRef;
                    co["name"] = c.getCapturedVar()->getNameAsString();
                    if (*it)
                        co["init"] = expr(*it);
                }
                ++it;
                (void)fit;
                caps.push_back(std::move(co));
            }
            o["caps"] = std::move(caps);
            if (OP->isDependentContext() || X->isGenericLambda())
            {
                o["generic"] = true;
                // export instantiated operator() bodies found so far
                if (auto *FT = OP->getDescribedFunctionTemplate())
                    for (auto *S : FT->specializations())
                        queueFn(S);
            }
            else
            {
                o["fn"] = id(OP);
                const FunctionDecl *Def = nullptr;
                if (OP->hasBody(Def) && seenFn.insert(Def).second)
                    fnQueue.push_back(Def);
                o["fn"] = id(Def ? Def : OP);
            }
            return o;
        }
        if (auto *X = dyn_cast<InitListExpr>(E))
        {
            o["k"] = "initlist";
            Array a;
            for (auto *i : X->inits())
                a.push_back(expr(i));
            o["a"] = std::move(a);
            return o;
        }
        if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E))
            return expr(X->getSubExpr());
        if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E))
        {
            o["k"] = "zeroinit";
            return o;
        }
        if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E))
        {
            o["k"] = "null";
            return o;
        }
        if (auto *X = dyn_cast<CXXNewExpr>(E))
        {
            o["k"] = "new";
            o["nt"] = type(X->getAllocatedType());
            if (X->getArraySize())
                o["n"] = exprOrNull(*X->getArraySize());
            o["init"] = exprOrNull(X->getInitializer());
            return o;
        }
        if (auto *X = dyn_cast<CXXDeleteExpr>(E))
        {
            o["k"] = "delete";
            o["e"] = expr(X->getArgument());
            return o;
        }
        if (auto *X = dyn_cast<CXXThrowExpr>(E))
        {
            o["k"] = "throw";
            o["e"] = exprOrNull(X->getSubExpr());
            return o;
        }
        if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E))
        {
            o["k"] = "sizeof";
            if (X->isArgumentType())
                o["of"] = type(X->getArgumentType());
            return o;
        }
        if (auto *X = dyn_cast<PredefinedExpr>(E))
        {
            (void)X;
            o["k"] = "str";
            o["v"] = "";
            return o;
        }
        if (auto *X = dyn_cast<StmtExpr>(E))
        {
            o["k"] = "stmtexpr";
            o["s"] = stmt(X->getSubStmt());
            return o;
        }
        if (auto *X = dyn_cast<ConstantExpr>(E))
            return expr(X->getSubExpr());
        o["k"] = "unsupported";
        o["what"] = E->getStmtClassName();
        return o;
    }

    int64_t lineOf(SourceLocation L)
    {
        SourceManager &SM = C.getSourceManager();
        return SM.getExpansionLineNumber(L);
    }

    template <class R>
    Array args(R &&r)
    {
        Array a;
        for (const Expr *x : r)
            a.push_back(expr(x));
        return a;
    }

    void exportGlobal(const VarDecl *V)
    {
        static std::set<const Decl *> seen;
        V = V->getCanonicalDecl();
        if (!seen.insert(V).second)
            return;
        const VarDecl *D = V->getDefinition();
        if (!D)
            D = V;
        Object o;
        o["id"] = id(V);
        o["q"] = V->getQualifiedNameAsString();
        o["t"] = type(V->getType());
        if (interesting(D->getLocation()) && D->getInit())
            o["init"] = expr(D->getInit());
        globals.push_back(std::move(o));
    }

    Object var(const VarDecl *V)
    {
        Object o;
        o["id"] = id(V);
        o["name"] = V->getNameAsString();
        o["t"] = type(V->getType());
        o["static"] = V->isStaticLocal();
        if (V->getInit())
            o["init"] = expr(V->getInit());
        return o;
    }

    Value stmt(const Stmt *S)
    {
        if (!S)
            return nullptr;
        Object o;
        o["l"] = lineOf(S->getBeginLoc());
        if (auto *X = dyn_cast<CompoundStmt>(S))
        {
            o["k"] = "block";
            Array a;
            for (auto *x : X->body())
                a.push_back(stmt(x));
            o["s"] = std::move(a);
        }
        else if (auto *X = dyn_cast<DeclStmt>(S))
        {
            o["k"] = "decl";
            Array a;
            for (auto *d : X->decls())
            {
                if (auto *V = dyn_cast<VarDecl>(d))
                {
                    if (isa<DecompositionDecl>(V))
                        a.push_back(Object{{"unsupported", "decomposition"}});
                    else
                        a.push_back(var(V));
                }
            }
            o["d"] = std::move(a);
        }
        else if (auto *X = dyn_cast<IfStmt>(S))
        {
            o["k"] = "if";
            if (X->isConstexpr())
            {
                auto N = X->getNondiscardedCase(C);
                if (generic)
                {
                    o["k"] = "unsupported";
                    o["what"] = "if constexpr in a generic instantiation";
                    return o;
                }
                if (N)
                    return *N ? stmt(*N) : Value(Object{{"k", "block"}, {"s", Array()}});
            }
            if (X->getInit())
                o["init"] = stmt(X->getInit());
            if (X->getConditionVariableDeclStmt())
                o["cv"] = stmt(X->getConditionVariableDeclStmt());
            o["c"] = expr(X->getCond());
            o["a"] = stmt(X->getThen());
            o["b"] = stmt(X->getElse());
        }
        else if (auto *X = dyn_cast<ForStmt>(S))
        {
            o["k"] = "for";
            o["init"] = stmt(X->getInit());
            o["c"] = exprOrNull(X->getCond());
            if (X->getConditionVariableDeclStmt())
                o["cv"] = stmt(X->getConditionVariableDeclStmt());
            o["inc"] = exprOrNull(X->getInc());
            o["body"] = stmt(X->getBody());
        }
        else if (auto *X = dyn_cast<WhileStmt>(S))
        {
            o["k"] = "while";
            o["c"] = exprOrNull(X->getCond());
            o["body"] = stmt(X->getBody());
        }
        else if (auto *X = dyn_cast<DoStmt>(S))
        {
            o["k"] = "do";
            o["c"] = exprOrNull(X->getCond());
            o["body"] = stmt(X->getBody());
        }
        else if (auto *X = dyn_cast<CXXForRangeStmt>(S))
        {
            o["k"] = "range";
            o["r"] = expr(X->getRangeInit());
            o["v"] = var(X->getLoopVariable());
            o["body"] = stmt(X->getBody());
        }
        else if (auto *X = dyn_cast<ReturnStmt>(S))
        {
            o["k"] = "return";
            o["e"] = exprOrNull(X->getRetValue());
        }
        else if (auto *X = dyn_cast<SwitchStmt>(S))
        {
            o["k"] = "switch";
            o["c"] = exprOrNull(X->getCond());
            o["body"] = stmt(X->getBody());
        }
        else if (auto *X = dyn_cast<CaseStmt>(S))
        {
            o["k"] = "case";
            o["v"] = exprOrNull(X->getLHS());
            o["s"] = stmt(X->getSubStmt());
        }
        else if (auto *X = dyn_cast<DefaultStmt>(S))
        {
            o["k"] = "default";
            o["s"] = stmt(X->getSubStmt());
        }
        else if (isa<BreakStmt>(S))
            o["k"] = "break";
        else if (isa<ContinueStmt>(S))
            o["k"] = "continue";
        else if (isa<NullStmt>(S))
            o["k"] = "null";
        else if (auto *X = dyn_cast<CXXTryStmt>(S))
        {
            o["k"] = "try";
            o["body"] = stmt(X->getTryBlock());
            Array a;
            for (unsigned i = 0; i < X->getNumHandlers(); i++)
            {
                auto *H = X->getHandler(i);
                Object h;
                if (H->getExceptionDecl())
                    h["v"] = var(H->getExceptionDecl());
                h["body"] = stmt(H->getHandlerBlock());
                a.push_back(std::move(h));
            }
            o["h"] = std::move(a);
        }
        else if (auto *X = dyn_cast<AttributedStmt>(S))
            return stmt(X->getSubStmt());
        else if (auto *E = dyn_cast<Expr>(S))
        {
            o["k"] = "expr";
            o["e"] = expr(E);
        }
        else
        {
            o["k"] = "unsupported";
            o["what"] = S->getStmtClassName();
        }
        return o;
    }

    void exportFn(const FunctionDecl *F)
    {
        Object o;
        o["id"] = id(F);
        o["canon"] = id(F->getCanonicalDecl());
        o["name"] = F->getNameAsString();
        o["q"] = F->getQualifiedNameAsString();
        o["loc"] = loc(F->getLocation());
        o["rt"] = type(F->getReturnType());
        Array ps;
        for (auto *p : F->parameters())
        {
            Object po;
            po["id"] = id(p);
            po["name"] = p->getNameAsString();
            po["t"] = type(p->getType());
            ps.push_back(std::move(po));
        }
        o["params"] = std::move(ps);
        if (auto *M = dyn_cast<CXXMethodDecl>(F))
        {
            o["cls"] = M->getParent()->getQualifiedNameAsString();
            o["clsid"] = id(M->getParent());
            o["virtual"] = M->isVirtual();
            o["static"] = M->isStatic();
            o["const"] = M->isConst();
            Array ov;
            for (auto *b : M->overridden_methods())
                ov.push_back(id(b->getCanonicalDecl()));
            o["over"] = std::move(ov);
            queueRec(M->getParent());
        }
        Array ta;
        if (auto *L = F->getTemplateSpecializationArgs())
            for (auto &x : L->asArray())
                ta.push_back(targ(x));
        if (ta.size())
            o["targs"] = std::move(ta);
        if (auto *CD = dyn_cast<CXXConstructorDecl>(F))
        {
            Array a;
            for (auto *I : CD->inits())
            {
                Object i;
                if (I->isBaseInitializer())
                    i["base"] = type(QualType(I->getBaseClass(), 0));
                else if (I->isMemberInitializer())
                    i["field"] = I->getMember()->getNameAsString();
                else if (I->isDelegatingInitializer())
                    i["delegate"] = true;
                i["written"] = I->isWritten();
                i["init"] = expr(I->getInit());
                a.push_back(std::move(i));
            }
            o["inits"] = std::move(a);
        }
        o["dtor"] = isa<CXXDestructorDecl>(F);
        o["body"] = stmt(F->getBody());
        fns.push_back(std::move(o));
    }

    void exportRec(const CXXRecordDecl *R)
    {
        Object o;
        o["id"] = id(R);
        o["q"] = R->getQualifiedNameAsString();
        o["t"] = type(QualType(R->getTypeForDecl(), 0));
        o["loc"] = loc(R->getLocation());
        Array bs;
        for (auto &b : R->bases())
            bs.push_back(type(b.getType()));
        o["bases"] = std::move(bs);
        Array fs;
        for (auto *f : R->fields())
        {
            Object fo;
            fo["name"] = f->getNameAsString();
            fo["t"] = type(f->getType());
            fo["const"] = f->getType().isConstQualified();
            if (f->hasInClassInitializer() && f->getInClassInitializer())
                fo["init"] = expr(f->getInClassInitializer());
            fs.push_back(std::move(fo));
        }
        o["fields"] = std::move(fs);
        Array ms;
        for (auto *m : R->methods())
        {
            Object mo;
            mo["name"] = m->getNameAsString();
            mo["id"] = id(m->getCanonicalDecl());
            const FunctionDecl *Def = nullptr;
            if (m->hasBody(Def))
            {
                mo["def"] = id(Def);
                queueFn(m);
            }
            mo["virtual"] = m->isVirtual();
            mo["np"] = (int64_t)m->getNumParams();
            Array ov;
            for (auto *b : m->overridden_methods())
                ov.push_back(id(b->getCanonicalDecl()));
            mo["over"] = std::move(ov);
            ms.push_back(std::move(mo));
        }
        o["methods"] = std::move(ms);
        recs.push_back(std::move(o));
    }

    void drain()
    {
        size_t f = 0, r = 0;
        while (f < fnQueue.size() || r < recQueue.size())
        {
            if (f < fnQueue.size())
                exportFn(fnQueue[f++]);
            else
                exportRec(recQueue[r++]);
        }
    }
};

struct Visitor : RecursiveASTVisitor<Visitor>
{
    Exporter &X;
    explicit Visitor(Exporter &X) : X(X) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool VisitFunctionDecl(FunctionDecl *F)
    {
        if (F->doesThisDeclarationHaveABody())
            X.queueFn(F);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *R)
    {
        if (R->isThisDeclarationADefinition() && !R->isDependentContext() && X.interesting(R->getLocation()) && !R->isLambda())
            X.queueRec(R);
        return true;
    }
    // do not descend into system code
    bool TraverseDecl(Decl *D)
    {
        if (D && !isa<TranslationUnitDecl>(D) && !isa<NamespaceDecl>(D) && D->getLocation().isValid() && !X.interesting(D->getLocation()))
            return true;
        return RecursiveASTVisitor<Visitor>::TraverseDecl(D);
    }
};

struct Consumer : ASTConsumer
{
    void HandleTranslationUnit(ASTContext &C) override
    {
        if (C.getDiagnostics().hasErrorOccurred())
            return;
        Exporter X(C);
        Visitor V(X);
        V.TraverseDecl(C.getTranslationUnitDecl());
        X.drain();
        Object o;
        o["fns"] = std::move(X.fns);
        o["recs"] = std::move(X.recs);
        o["globals"] = std::move(X.globals);
        o["types"] = std::move(X.types);
        std::error_code EC;
        llvm::raw_fd_ostream os(OutFile, EC);
        os << Value(std::move(o));
    }
};

struct Action : ASTFrontendAction
{
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override
    {
        return std::make_unique<Consumer>();
    }
};

int main(int argc, char **argv)
{
    // astx OUT SRC PREFIX[,PREFIX...] -- clang args
    if (argc < 5)
        return 2;
    OutFile = argv[1];
    std::string src = argv[2];
    std::stringstream ss(argv[3]);
    std::string p;
    while (std::getline(ss, p, ','))
        Prefixes.push_back(p);
    std::vector<std::string> A;
    for (int i = 5; i < argc; i++)
        A.push_back(argv[i]);
    std::ifstream in(src);
    std::stringstream buf;
    buf << in.rdbuf();
    bool ok = clang::tooling::runToolOnCodeWithArgs(std::make_unique<Action>(), buf.str(), A, src, "clang");
    return ok ? 0 : 1;
}
