// mkfacts: dumps the resolved program (clang AST, after overload resolution and
// template instantiation) of one translation unit as JSON lines, for the rules in
// /verif/rules.  One line per function definition / record / enum / global located
// under the root directory; then one line with the tables of types and functions.
//
// usage: mkfacts ROOT OUT SOURCE -- <compiler flags>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/AST/OpenMPClause.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>

using namespace clang;
namespace json = llvm::json;
using json::Array;
using json::Object;
using json::Value;

static std::string gRoot, gOut;

class Dumper : public RecursiveASTVisitor<Dumper>
{
public:
    Dumper(ASTContext& c, llvm::raw_ostream& os) : C(c), SM(c.getSourceManager()), OS(os), PP(c.getLangOpts())
    {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
        PP.SuppressUnwrittenScope = false;
    }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }

    // ---------------------------------------------------------------- locations
    std::string fileOf(SourceLocation L)
    {
        if (L.isInvalid())
            return "";
        L = SM.getExpansionLoc(L);
        auto f = SM.getFilename(L);
        llvm::SmallString<256> p(f);
        SM.getFileManager().makeAbsolutePath(p);
        std::string s = p.str().str();
        // normalise "a/../b"
        llvm::SmallString<256> r(s);
        llvm::sys::path::remove_dots(r, true);
        return r.str().str();
    }
    bool inRoot(SourceLocation L)
    {
        auto it = rootCache.find(SM.getFileID(SM.getExpansionLoc(L)));
        if (it != rootCache.end())
            return it->second;
        bool b = llvm::StringRef(fileOf(L)).starts_with(gRoot + "/");
        rootCache[SM.getFileID(SM.getExpansionLoc(L))] = b;
        return b;
    }
    std::string rel(SourceLocation L)
    {
        std::string f = fileOf(L);
        if (llvm::StringRef(f).starts_with(gRoot + "/"))
            return f.substr(gRoot.size() + 1);
        return f;
    }
    int line(SourceLocation L) { return L.isInvalid() ? 0 : (int)SM.getExpansionLineNumber(L); }

    // ---------------------------------------------------------------- types
    int type(QualType T)
    {
        if (T.isNull())
            return -1;
        T = T.getCanonicalType();
        void* key = T.getAsOpaquePtr();
        auto it = typeIdx.find(key);
        if (it != typeIdx.end())
            return it->second;
        int idx = (int)types.size();
        typeIdx[key] = idx;
        types.push_back(nullptr);
        Object o;
        o["s"] = T.getAsString(PP);
        if (T->isDependentType())
            o["dep"] = 1;
        QualType P = T;
        if (T->isReferenceType())
        {
            o["ref"] = T->isLValueReferenceType() ? 1 : 2;
            P = T.getNonReferenceType();
        }
        if (P->isPointerType())
        {
            o["ptr"] = 1;
            o["ptrconst"] = P.isConstQualified() ? 1 : 0;
            P = P->getPointeeType();
        }
        if (P.isConstQualified())
            o["const"] = 1;
        if (auto* AT = C.getAsArrayType(P))
        {
            o["arr"] = 1;
            if (auto* CA = dyn_cast<ConstantArrayType>(AT))
                o["arrn"] = (int64_t)CA->getSize().getZExtValue();
            P = AT->getElementType();
        }
        o["to"] = type0(P.getUnqualifiedType(), idx);
        if (auto* RD = P->getAsCXXRecordDecl())
        {
            o["rec"] = recName(RD);
            if (auto* S = dyn_cast<ClassTemplateSpecializationDecl>(RD))
            {
                Array a;
                for (auto& A : S->getTemplateArgs().asArray())
                    targ(A, a);
                o["targs"] = std::move(a);
            }
        }
        else if (auto* ET = P->getAs<EnumType>())
            o["enum"] = ET->getDecl()->getQualifiedNameAsString();
        else if (P->isBooleanType())
            o["b"] = "bool";
        else if (P->isVoidType())
            o["b"] = "void";
        else if (P->isUnsignedIntegerType())
            o["b"] = "uint";
        else if (P->isIntegerType())
            o["b"] = "int";
        else if (P->isFloatingType())
            o["b"] = "float";
        else if (P->isFunctionType())
            o["b"] = "fn";
        types[idx] = std::move(o);
        return idx;
    }
    int type0(QualType T, int self)
    {
        T = T.getCanonicalType();
        auto it = typeIdx.find(T.getAsOpaquePtr());
        if (it != typeIdx.end())
            return it->second;
        return type(T);
    }
    void targ(const TemplateArgument& A, Array& a)
    {
        if (A.getKind() == TemplateArgument::Type)
            a.push_back(type(A.getAsType()));
        else if (A.getKind() == TemplateArgument::Integral)
            a.push_back(std::string("#") + llvm::toString(A.getAsIntegral(), 10));
        else if (A.getKind() == TemplateArgument::Pack)
            for (auto& B : A.pack_elements())
                targ(B, a);
        else
            a.push_back(nullptr);
    }
    std::string recName(const CXXRecordDecl* RD)
    {
        if (RD->isLambda())
            return "<lambda>";
        return RD->getQualifiedNameAsString();
    }

    // ---------------------------------------------------------------- functions
    std::string usr(const Decl* D)
    {
        llvm::SmallString<128> b;
        if (index::generateUSRForDecl(D, b))
            return "?" + std::to_string((uintptr_t)D);
        return b.str().str();
    }
    int func(const FunctionDecl* F)
    {
        F = F->getCanonicalDecl();
        auto it = funcIdx.find(F);
        if (it != funcIdx.end())
            return it->second;
        int idx = (int)funcs.size();
        funcIdx[F] = idx;
        funcs.push_back(nullptr);
        Object o;
        o["u"] = usr(F);
        o["q"] = F->getQualifiedNameAsString();
        o["n"] = F->getNameAsString();
        const FunctionDecl* Pat = F->getTemplateInstantiationPattern();
        SourceLocation L = (Pat ? Pat : F)->getLocation();
        if (L.isInvalid() || !inRoot(L))
            o["sys"] = 1;
        o["ret"] = type(F->getReturnType());
        Array ps;
        for (auto* P : F->parameters())
            ps.push_back(type(P->getType()));
        o["p"] = std::move(ps);
        if (F->isVariadic())
            o["variadic"] = 1;
        if (auto* FPT = F->getType()->getAs<FunctionProtoType>())
        {
            auto EST = FPT->getExceptionSpecType();
            if (EST == EST_Unevaluated || EST == EST_Uninstantiated)
                o["nx"] = -1;
            else if (EST != EST_DependentNoexcept && FPT->isNothrow())
                o["nx"] = 1;
        }
        if (F->isExternC())
            o["c"] = 1;
        if (F->isStatic())
            o["static"] = 1;
        if (F->hasAttr<WarnUnusedResultAttr>())
            o["nodiscard"] = 1;
        if (F->isNoReturn())
            o["noreturn"] = 1;
        if (F->isImplicit() || F->isDefaulted())
            o["dflt"] = 1;
        if (F->isDeleted())
            o["deleted"] = 1;
        if (F->getBuiltinID())
            o["builtin"] = 1;
        if (F->isOverloadedOperator())
            o["op"] = getOperatorSpelling(F->getOverloadedOperator());
        if (auto* M = dyn_cast<CXXMethodDecl>(F))
        {
            o["cls"] = recName(M->getParent());
            o["clst"] = type(C.getRecordType(M->getParent()));
            if (M->isConst())
                o["const"] = 1;
            if (M->isVirtual())
                o["virt"] = 1;
            if (M->isPureVirtual())
                o["pure"] = 1;
            o["acc"] = M->getAccess() == AS_public ? "pub" : (M->getAccess() == AS_protected ? "prot" : "priv");
            Array ov;
            for (auto* B : M->overridden_methods())
                ov.push_back(func(B));
            if (!ov.empty())
                o["ov"] = std::move(ov);
            if (auto* K = dyn_cast<CXXConstructorDecl>(M))
            {
                o["ctor"] = K->isCopyConstructor() ? "copy" : (K->isMoveConstructor() ? "move" : (K->isDefaultConstructor() ? "def" : "other"));
            }
            if (isa<CXXDestructorDecl>(M))
                o["dtor"] = 1;
            if (isa<CXXConversionDecl>(M))
                o["conv"] = 1;
            if (M->isCopyAssignmentOperator())
                o["asg"] = "copy";
            if (M->isMoveAssignmentOperator())
                o["asg"] = "move";
        }
        funcs[idx] = std::move(o);
        return idx;
    }

    // ---------------------------------------------------------------- variables
    std::string varId(const ValueDecl* D)
    {
        D = cast<ValueDecl>(D->getCanonicalDecl());
        if (auto* V = dyn_cast<VarDecl>(D))
            if (V->hasGlobalStorage())
            {
                std::string q = V->getQualifiedNameAsString();
                if (V->isStaticLocal())
                {
                    if (auto* F = dyn_cast<FunctionDecl>(V->getDeclContext()))
                        q = F->getQualifiedNameAsString() + "::" + V->getNameAsString();
                }
                noteGlobal(V, q);
                return "g:" + q;
            }
        auto it = varIdx.find(D);
        if (it != varIdx.end())
            return "v" + std::to_string(it->second);
        int i = (int)varIdx.size();
        varIdx[D] = i;
        return "v" + std::to_string(i);
    }
    void noteGlobal(const VarDecl* V, const std::string& q)
    {
        if (globals.count(q))
            return;
        Object o;
        o["k"] = "global";
        o["q"] = q;
        o["t"] = type(V->getType());
        o["f"] = rel(V->getLocation());
        o["l"] = line(V->getLocation());
        bool isconst = V->getType().isConstQualified() || V->isConstexpr();
        o["const"] = isconst ? 1 : 0;
        if (V->getTLSKind() != VarDecl::TLS_None)
            o["tls"] = 1;
        if (V->isStaticLocal())
            o["slocal"] = 1;
        if (!inRoot(V->getLocation()))
            o["sys"] = 1;
        globals.emplace(q, Value(nullptr));
        if (V->hasInit() && !V->getInit()->isValueDependent() && inRoot(V->getLocation()))
            o["init"] = expr(V->getInit());
        globals.insert_or_assign(q, Value(std::move(o)));
    }

    std::string fieldName(const FieldDecl* F)
    {
        auto* RD = dyn_cast<CXXRecordDecl>(F->getParent());
        return (RD ? recName(RD) : F->getParent()->getQualifiedNameAsString()) + "::" + F->getNameAsString();
    }

    // ---------------------------------------------------------------- expressions
    const Expr* strip(const Expr* E)
    {
        while (true)
        {
            if (auto* X = dyn_cast<ParenExpr>(E))
                E = X->getSubExpr();
            else if (auto* X = dyn_cast<ImplicitCastExpr>(E))
                E = X->getSubExpr();
            else if (auto* X = dyn_cast<FullExpr>(E))
                E = X->getSubExpr();
            else if (auto* X = dyn_cast<MaterializeTemporaryExpr>(E))
                E = X->getSubExpr();
            else if (auto* X = dyn_cast<CXXBindTemporaryExpr>(E))
                E = X->getSubExpr();
            else if (auto* X = dyn_cast<SubstNonTypeTemplateParmExpr>(E))
                E = X->getReplacement();
            else if (auto* X = dyn_cast<CXXDefaultInitExpr>(E))
                E = X->getExpr();
            else if (auto* X = dyn_cast<CXXRewrittenBinaryOperator>(E))
                E = X->getSemanticForm();
            else if (auto* X = dyn_cast<OpaqueValueExpr>(E))
            {
                if (!X->getSourceExpr())
                    return E;
                E = X->getSourceExpr();
            }
            else
                return E;
        }
    }
    Array exprs(llvm::ArrayRef<const Expr*> A)
    {
        Array a;
        for (auto* E : A)
            a.push_back(expr(E));
        return a;
    }
    Value expr(const Expr* E0)
    {
        if (!E0)
            return nullptr;
        bool dflt = false;
        const Expr* E = strip(E0);
        if (auto* X = dyn_cast<CXXDefaultArgExpr>(E))
        {
            dflt = true;
            E = strip(X->getExpr());
        }
        Object o;
        o["l"] = line(E->getExprLoc());
        o["t"] = type(E->getType());
        if (dflt)
            o["dflt"] = 1;
        if (E->isGLValue())
            o["lv"] = 1;

        if (auto* X = dyn_cast<DeclRefExpr>(E))
        {
            const ValueDecl* D = X->getDecl();
            if (auto* F = dyn_cast<FunctionDecl>(D))
            {
                o["k"] = "fref";
                o["f"] = func(F);
            }
            else if (auto* EC = dyn_cast<EnumConstantDecl>(D))
            {
                o["k"] = "enum";
                o["n"] = EC->getQualifiedNameAsString();
                o["v"] = EC->getInitVal().getExtValue();
            }
            else if (auto* BD = dyn_cast<BindingDecl>(D))
            {
                o["k"] = "ref";
                o["d"] = varId(BD);
                o["n"] = BD->getNameAsString();
            }
            else
            {
                o["k"] = "ref";
                o["d"] = varId(D);
                o["n"] = D->getNameAsString();
                if (auto* V = dyn_cast<VarDecl>(D))
                {
                    if (isa<ParmVarDecl>(V))
                        o["par"] = 1;
                    if (!isa<ParmVarDecl>(V) && (V->isConstexpr() || (V->getType().isConstQualified())) && V->getType()->isIntegralOrEnumerationType() &&
                        V->hasInit() && !V->getInit()->isValueDependent())
                    {
                        Expr::EvalResult R;
                        if (V->getInit()->EvaluateAsInt(R, C))
                            o["cv"] = R.Val.getInt().isSigned() ? R.Val.getInt().getSExtValue() : (int64_t)R.Val.getInt().getZExtValue();
                    }
                }
            }
            return o;
        }
        if (auto* X = dyn_cast<MemberExpr>(E))
        {
            const ValueDecl* D = X->getMemberDecl();
            if (auto* F = dyn_cast<FieldDecl>(D))
            {
                o["k"] = "mem";
                o["f"] = fieldName(F);
                o["n"] = F->getNameAsString();
                if (F->isMutable())
                    o["mut"] = 1;
                o["b"] = expr(X->getBase());
                if (X->isArrow())
                    o["arrow"] = 1;
            }
            else if (auto* M = dyn_cast<CXXMethodDecl>(D))
            {
                o["k"] = "mfref";
                o["f"] = func(M);
                o["b"] = expr(X->getBase());
            }
            else
            {
                o["k"] = "ref";
                o["d"] = varId(D);
                o["n"] = D->getNameAsString();
            }
            return o;
        }
        if (auto* X = dyn_cast<CXXOperatorCallExpr>(E))
        {
            o["k"] = "call";
            o["op"] = getOperatorSpelling(X->getOperator());
            const FunctionDecl* F = X->getDirectCallee();
            if (F)
                o["f"] = func(F);
            else
                o["fx"] = expr(X->getCallee());
            unsigned i = 0;
            if (F && isa<CXXMethodDecl>(F) && !F->isStatic() && X->getNumArgs() > 0)
            {
                o["o"] = expr(X->getArg(0));
                i = 1;
            }
            Array a;
            for (; i < X->getNumArgs(); ++i)
                a.push_back(expr(X->getArg(i)));
            o["a"] = std::move(a);
            return o;
        }
        if (auto* X = dyn_cast<CallExpr>(E))
        {
            o["k"] = "call";
            const Expr* cal = strip(X->getCallee());
            if (const FunctionDecl* F = X->getDirectCallee())
                o["f"] = func(F);
            else if (!isa<MemberExpr>(cal) || !X->getDirectCallee())
                o["fx"] = expr(cal);
            if (auto* M = dyn_cast<CXXMemberCallExpr>(E))
            {
                o["o"] = expr(M->getImplicitObjectArgument());
                if (auto* ME = dyn_cast<MemberExpr>(cal))
                {
                    if (ME->isArrow())
                        o["arrow"] = 1;
                    if (ME->hasQualifier())
                        o["qual"] = 1;
                }
            }
            Array a;
            for (unsigned i = 0; i < X->getNumArgs(); ++i)
                a.push_back(expr(X->getArg(i)));
            o["a"] = std::move(a);
            return o;
        }
        if (auto* X = dyn_cast<CXXConstructExpr>(E))
        {
            o["k"] = "ctor";
            o["f"] = func(X->getConstructor());
            Array a;
            for (unsigned i = 0; i < X->getNumArgs(); ++i)
                a.push_back(expr(X->getArg(i)));
            o["a"] = std::move(a);
            if (X->isListInitialization())
                o["list"] = 1;
            return o;
        }
        if (auto* X = dyn_cast<CXXInheritedCtorInitExpr>(E))
        {
            o["k"] = "ctor";
            o["f"] = func(X->getConstructor());
            o["a"] = Array{};
            return o;
        }
        if (auto* X = dyn_cast<UnaryOperator>(E))
        {
            o["k"] = "un";
            o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str() + (X->isPostfix() ? "post" : "");
            o["e"] = expr(X->getSubExpr());
            return o;
        }
        if (auto* X = dyn_cast<BinaryOperator>(E))
        {
            o["k"] = X->isAssignmentOp() ? "asg" : "bin";
            o["op"] = X->getOpcodeStr().str();
            o["x"] = expr(X->getLHS());
            o["y"] = expr(X->getRHS());
            return o;
        }
        if (auto* X = dyn_cast<AbstractConditionalOperator>(E))
        {
            o["k"] = "cond";
            o["c"] = expr(X->getCond());
            o["x"] = expr(X->getTrueExpr());
            o["y"] = expr(X->getFalseExpr());
            return o;
        }
        if (auto* X = dyn_cast<ArraySubscriptExpr>(E))
        {
            o["k"] = "idx";
            o["b"] = expr(X->getBase());
            o["i"] = expr(X->getIdx());
            return o;
        }
        if (auto* X = dyn_cast<ExplicitCastExpr>(E))
        {
            o["k"] = "cast";
            o["ck"] = isa<CXXStaticCastExpr>(X) ? "static" : isa<CXXDynamicCastExpr>(X) ? "dynamic"
                                                         : isa<CXXConstCastExpr>(X)     ? "const"
                                                         : isa<CXXReinterpretCastExpr>(X) ? "reinterpret"
                                                         : isa<CXXFunctionalCastExpr>(X)  ? "functional"
                                                                                          : "c";
            o["e"] = expr(X->getSubExpr());
            return o;
        }
        if (auto* X = dyn_cast<IntegerLiteral>(E))
        {
            o["k"] = "lit";
            auto v = X->getValue();
            o["v"] = v.getActiveBits() > 63 ? Value(llvm::toString(v, 10, false)) : Value((int64_t)v.getZExtValue());
            return o;
        }
        if (auto* X = dyn_cast<FloatingLiteral>(E))
        {
            o["k"] = "lit";
            o["v"] = X->getValueAsApproximateDouble();
            o["fl"] = 1;
            return o;
        }
        if (auto* X = dyn_cast<CXXBoolLiteralExpr>(E))
        {
            o["k"] = "lit";
            o["v"] = X->getValue();
            return o;
        }
        if (auto* X = dyn_cast<CharacterLiteral>(E))
        {
            o["k"] = "lit";
            o["v"] = (int64_t)X->getValue();
            return o;
        }
        if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E))
        {
            o["k"] = "null";
            return o;
        }
        if (auto* X = dyn_cast<StringLiteral>(E))
        {
            o["k"] = "str";
            o["v"] = json::fixUTF8(X->getBytes());
            return o;
        }
        if (isa<CXXThisExpr>(E))
        {
            o["k"] = "this";
            return o;
        }
        if (auto* X = dyn_cast<CXXThrowExpr>(E))
        {
            o["k"] = "throw";
            if (X->getSubExpr())
            {
                o["e"] = expr(X->getSubExpr());
                o["tt"] = type(X->getSubExpr()->getType().getUnqualifiedType());
            }
            return o;
        }
        if (auto* X = dyn_cast<CXXNewExpr>(E))
        {
            o["k"] = "new";
            o["at"] = type(X->getAllocatedType());
            if (X->isArray())
                o["arr"] = 1;
            if (X->getNumPlacementArgs())
                o["placement"] = 1;
            Array a;
            if (X->getInitializer())
                a.push_back(expr(X->getInitializer()));
            if (auto S = X->getArraySize())
                a.push_back(expr(*S));
            o["a"] = std::move(a);
            return o;
        }
        if (auto* X = dyn_cast<CXXDeleteExpr>(E))
        {
            o["k"] = "delete";
            o["e"] = expr(X->getArgument());
            return o;
        }
        if (auto* X = dyn_cast<LambdaExpr>(E))
        {
            o["k"] = "lambda";
            Array caps;
            auto initIt = X->capture_init_begin();
            for (auto& Cap : X->captures())
            {
                Object c;
                const Expr* init = *initIt++;
                if (Cap.capturesThis())
                    c["this"] = 1;
                else if (Cap.capturesVariable())
                {
                    c["d"] = varId(Cap.getCapturedVar());
                    c["byref"] = Cap.getCaptureKind() == LCK_ByRef ? 1 : 0;
                    if (auto* V = dyn_cast<VarDecl>(Cap.getCapturedVar()))
                        if (V->isInitCapture() && init)
                            c["init"] = expr(init);
                }
                caps.push_back(std::move(c));
            }
            o["caps"] = std::move(caps);
            const CXXMethodDecl* Op = X->getCallOperator();
            if (auto* TD = X->getDependentCallOperator())
            {
                // generic lambda: use the first instantiation
                for (auto* S : TD->specializations())
                    if (S->hasBody() && !S->isDependentContext())
                    {
                        Op = cast<CXXMethodDecl>(S);
                        break;
                    }
            }
            Array ps;
            for (auto* P : Op->parameters())
                ps.push_back(var(P));
            o["params"] = std::move(ps);
            if (Op->isConst())
                o["const"] = 1;
            const Stmt* B = Op->getBody();
            if (!B || Op->isDependentContext())
                o["dep"] = 1;
            if (B)
                o["body"] = stmt(B);
            return o;
        }
        if (auto* X = dyn_cast<InitListExpr>(E))
        {
            o["k"] = "init";
            Array a;
            for (unsigned i = 0; i < X->getNumInits(); ++i)
                a.push_back(expr(X->getInit(i)));
            o["a"] = std::move(a);
            return o;
        }
        if (auto* X = dyn_cast<CXXStdInitializerListExpr>(E))
        {
            o["k"] = "initlist";
            o["a"] = Array{expr(X->getSubExpr())};
            return o;
        }
        if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E))
        {
            o["k"] = "zero";
            return o;
        }
        if (auto* X = dyn_cast<UnaryExprOrTypeTraitExpr>(E))
        {
            o["k"] = "sizeof";
            Expr::EvalResult R;
            if (!X->isValueDependent() && X->EvaluateAsInt(R, C))
                o["v"] = (int64_t)R.Val.getInt().getZExtValue();
            return o;
        }
        if (auto* X = dyn_cast<TypeTraitExpr>(E))
        {
            o["k"] = "lit";
            o["v"] = X->isValueDependent() ? Value(nullptr) : Value(X->getValue());
            return o;
        }
        if (auto* X = dyn_cast<StmtExpr>(E))
        {
            o["k"] = "stmtexpr";
            o["s"] = stmt(X->getSubStmt());
            return o;
        }
        if (auto* X = dyn_cast<PredefinedExpr>(E))
        {
            (void)X;
            o["k"] = "str";
            o["v"] = "";
            return o;
        }
        if (auto* X = dyn_cast<SourceLocExpr>(E))
        {
            (void)X;
            o["k"] = "srcloc";
            return o;
        }
        // anything else: generic node with children, so nothing is hidden
        o["k"] = "other";
        o["sc"] = E->getStmtClassName();
        Array a;
        for (auto* S : E->children())
            if (S)
            {
                if (auto* X = dyn_cast<Expr>(S))
                    a.push_back(expr(X));
            }
        o["a"] = std::move(a);
        return o;
    }

    // ---------------------------------------------------------------- statements
    Value var(const VarDecl* V)
    {
        Object o;
        o["d"] = varId(V);
        o["n"] = V->getNameAsString();
        o["t"] = type(V->getType());
        o["l"] = line(V->getLocation());
        if (V->isStaticLocal())
            o["static"] = 1;
        if (V->getTLSKind() != VarDecl::TLS_None)
            o["tls"] = 1;
        if (!isa<ParmVarDecl>(V) && V->hasInit() && !V->getInit()->isTypeDependent())
            o["init"] = expr(V->getInit());
        if (auto* D = dyn_cast<DecompositionDecl>(V))
        {
            Array a;
            for (auto* B : D->bindings())
            {
                Object b;
                b["d"] = varId(B);
                b["n"] = B->getNameAsString();
                b["t"] = type(B->getType());
                if (B->getBinding() && !B->getHoldingVar())
                    b["e"] = expr(B->getBinding());
                a.push_back(std::move(b));
            }
            o["bind"] = std::move(a);
        }
        return o;
    }
    Value stmt(const Stmt* S)
    {
        if (!S)
            return nullptr;
        if (auto* E = dyn_cast<Expr>(S))
        {
            Object o;
            o["k"] = "expr";
            o["l"] = line(E->getExprLoc());
            o["e"] = expr(E);
            return o;
        }
        Object o;
        o["l"] = line(S->getBeginLoc());
        if (auto* X = dyn_cast<CompoundStmt>(S))
        {
            o["k"] = "blk";
            Array a;
            for (auto* s : X->body())
                a.push_back(stmt(s));
            o["s"] = std::move(a);
            o["le"] = line(X->getRBracLoc());
            return o;
        }
        if (auto* X = dyn_cast<DeclStmt>(S))
        {
            o["k"] = "decl";
            Array a;
            for (auto* D : X->decls())
                if (auto* V = dyn_cast<VarDecl>(D))
                    a.push_back(var(V));
            o["v"] = std::move(a);
            return o;
        }
        if (auto* X = dyn_cast<IfStmt>(S))
        {
            o["k"] = "if";
            if (X->isConstexpr())
                o["cx"] = 1;
            if (X->getInit())
                o["init"] = stmt(X->getInit());
            if (X->getConditionVariable())
                o["cv"] = var(X->getConditionVariable());
            o["c"] = expr(X->getCond());
            o["then"] = stmt(X->getThen());
            if (X->getElse())
                o["else"] = stmt(X->getElse());
            return o;
        }
        if (auto* X = dyn_cast<ForStmt>(S))
        {
            o["k"] = "for";
            if (X->getInit())
                o["init"] = stmt(X->getInit());
            if (X->getConditionVariable())
                o["cv"] = var(X->getConditionVariable());
            if (X->getCond())
                o["c"] = expr(X->getCond());
            if (X->getInc())
                o["inc"] = expr(X->getInc());
            o["body"] = stmt(X->getBody());
            return o;
        }
        if (auto* X = dyn_cast<WhileStmt>(S))
        {
            o["k"] = "while";
            if (X->getConditionVariable())
                o["cv"] = var(X->getConditionVariable());
            o["c"] = expr(X->getCond());
            o["body"] = stmt(X->getBody());
            return o;
        }
        if (auto* X = dyn_cast<DoStmt>(S))
        {
            o["k"] = "do";
            o["c"] = expr(X->getCond());
            o["body"] = stmt(X->getBody());
            return o;
        }
        if (auto* X = dyn_cast<CXXForRangeStmt>(S))
        {
            o["k"] = "rfor";
            if (X->getInit())
                o["init"] = stmt(X->getInit());
            o["var"] = var(X->getLoopVariable());
            o["r"] = expr(X->getRangeInit());
            o["body"] = stmt(X->getBody());
            return o;
        }
        if (auto* X = dyn_cast<SwitchStmt>(S))
        {
            o["k"] = "switch";
            if (X->getInit())
                o["init"] = stmt(X->getInit());
            if (X->getConditionVariable())
                o["cv"] = var(X->getConditionVariable());
            o["c"] = expr(X->getCond());
            o["body"] = stmt(X->getBody());
            return o;
        }
        if (auto* X = dyn_cast<CaseStmt>(S))
        {
            o["k"] = "case";
            o["e"] = expr(X->getLHS());
            o["s"] = stmt(X->getSubStmt());
            return o;
        }
        if (auto* X = dyn_cast<DefaultStmt>(S))
        {
            o["k"] = "default";
            o["s"] = stmt(X->getSubStmt());
            return o;
        }
        if (isa<BreakStmt>(S))
        {
            o["k"] = "break";
            return o;
        }
        if (isa<ContinueStmt>(S))
        {
            o["k"] = "continue";
            return o;
        }
        if (auto* X = dyn_cast<ReturnStmt>(S))
        {
            o["k"] = "ret";
            if (X->getRetValue())
                o["e"] = expr(X->getRetValue());
            return o;
        }
        if (auto* X = dyn_cast<CXXTryStmt>(S))
        {
            o["k"] = "try";
            o["body"] = stmt(X->getTryBlock());
            Array h;
            for (unsigned i = 0; i < X->getNumHandlers(); ++i)
            {
                auto* H = X->getHandler(i);
                Object c;
                c["l"] = line(H->getBeginLoc());
                if (H->getExceptionDecl())
                {
                    c["v"] = var(H->getExceptionDecl());
                    c["ct"] = type(H->getCaughtType().getNonReferenceType().getUnqualifiedType());
                }
                c["body"] = stmt(H->getHandlerBlock());
                h.push_back(std::move(c));
            }
            o["h"] = std::move(h);
            return o;
        }
        if (isa<NullStmt>(S))
        {
            o["k"] = "nop";
            return o;
        }
        if (auto* X = dyn_cast<AttributedStmt>(S))
            return stmt(X->getSubStmt());
        if (auto* X = dyn_cast<LabelStmt>(S))
        {
            o["k"] = "label";
            o["n"] = X->getName();
            o["s"] = stmt(X->getSubStmt());
            return o;
        }
        if (isa<GotoStmt>(S))
        {
            o["k"] = "goto";
            return o;
        }
        if (auto* X = dyn_cast<OMPExecutableDirective>(S))
        {
            o["k"] = "omp";
            o["dir"] = llvm::omp::getOpenMPDirectiveName(X->getDirectiveKind()).str();
            Array cl;
            for (auto* Cl : X->clauses())
            {
                Object c;
                c["k"] = llvm::omp::getOpenMPClauseName(Cl->getClauseKind()).str();
                Array vs;
                auto add = [&](const Expr* E)
                {
                    if (auto* D = dyn_cast<DeclRefExpr>(strip(E)))
                        vs.push_back(varId(D->getDecl()));
                };
                if (auto* P = dyn_cast<OMPPrivateClause>(Cl))
                    for (auto* E : P->varlists())
                        add(E);
                if (auto* P = dyn_cast<OMPFirstprivateClause>(Cl))
                    for (auto* E : P->varlists())
                        add(E);
                if (auto* P = dyn_cast<OMPLastprivateClause>(Cl))
                    for (auto* E : P->varlists())
                        add(E);
                if (auto* P = dyn_cast<OMPSharedClause>(Cl))
                    for (auto* E : P->varlists())
                        add(E);
                if (auto* P = dyn_cast<OMPReductionClause>(Cl))
                    for (auto* E : P->varlists())
                        add(E);
                c["v"] = std::move(vs);
                cl.push_back(std::move(c));
            }
            o["cl"] = std::move(cl);
            if (X->hasAssociatedStmt())
            {
                const Stmt* B = X->getAssociatedStmt();
                while (auto* CS = dyn_cast<CapturedStmt>(B))
                    B = CS->getCapturedStmt();
                o["body"] = stmt(B);
            }
            return o;
        }
        if (auto* X = dyn_cast<CapturedStmt>(S))
            return stmt(X->getCapturedStmt());
        o["k"] = "ostmt";
        o["sc"] = S->getStmtClassName();
        Array a;
        for (auto* c : S->children())
            a.push_back(stmt(c));
        o["s"] = std::move(a);
        return o;
    }

    // ---------------------------------------------------------------- visitors
    void emit(Object o) { OS << Value(std::move(o)) << "\n"; }

    bool VisitFunctionDecl(FunctionDecl* F)
    {
        if (!F->doesThisDeclarationHaveABody() || F->isDependentContext())
            return true;
        if (F->isDeleted() || F->isInvalidDecl())
            return true;
        if (auto* M = dyn_cast<CXXMethodDecl>(F))
            if (M->getParent()->isLambda())
                return true;
        if (F->isDefaulted() && !F->isUserProvided())
            return true;
        if (!inRoot(F->getLocation()))
            return true;
        if (!done.insert(F->getCanonicalDecl()).second)
            return true;
        Object o;
        o["k"] = "func";
        o["f"] = func(F);
        o["file"] = rel(F->getLocation());
        o["l"] = line(F->getLocation());
        Array ps;
        for (auto* P : F->parameters())
            ps.push_back(var(P));
        o["params"] = std::move(ps);
        if (auto* K = dyn_cast<CXXConstructorDecl>(F))
        {
            Array in;
            for (auto* I : K->inits())
            {
                Object i;
                if (I->isAnyMemberInitializer() && I->getMember())
                    i["field"] = fieldName(I->getMember());
                else if (I->isBaseInitializer())
                    i["base"] = type(QualType(I->getBaseClass(), 0));
                else
                    i["deleg"] = 1;
                if (I->isWritten())
                    i["w"] = 1;
                i["e"] = expr(I->getInit());
                in.push_back(std::move(i));
            }
            o["inits"] = std::move(in);
        }
        o["body"] = stmt(F->getBody());
        emit(std::move(o));
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* R)
    {
        if (!R->isThisDeclarationADefinition() || R->isLambda() || R->isDependentContext())
            return true;
        if (!inRoot(R->getLocation()))
            return true;
        Object o;
        o["k"] = "rec";
        o["q"] = recName(R);
        o["t"] = type(C.getRecordType(R));
        o["file"] = rel(R->getLocation());
        o["l"] = line(R->getLocation());
        Array b;
        for (auto& B : R->bases())
            b.push_back(type(B.getType()));
        o["bases"] = std::move(b);
        Array f;
        for (auto* F : R->fields())
        {
            Object x;
            x["n"] = F->getNameAsString();
            x["q"] = fieldName(F);
            x["t"] = type(F->getType());
            x["l"] = line(F->getLocation());
            if (F->isMutable())
                x["mut"] = 1;
            x["acc"] = F->getAccess() == AS_public ? "pub" : (F->getAccess() == AS_protected ? "prot" : "priv");
            if (F->hasInClassInitializer() && F->getInClassInitializer() && !F->getInClassInitializer()->isValueDependent())
                x["init"] = expr(F->getInClassInitializer());
            f.push_back(std::move(x));
        }
        o["fields"] = std::move(f);
        Array m;
        for (auto* M : R->methods())
            m.push_back(func(M));
        o["methods"] = std::move(m);
        emit(std::move(o));
        return true;
    }
    bool VisitEnumDecl(EnumDecl* E)
    {
        if (!E->isThisDeclarationADefinition() || !inRoot(E->getLocation()))
            return true;
        Object o;
        o["k"] = "enumdef";
        o["q"] = E->getQualifiedNameAsString();
        Array a;
        for (auto* c : E->enumerators())
            a.push_back(Array{c->getNameAsString(), c->getInitVal().getExtValue()});
        o["v"] = std::move(a);
        emit(std::move(o));
        return true;
    }
    bool VisitVarDecl(VarDecl* V)
    {
        if (V->hasGlobalStorage() && inRoot(V->getLocation()) && !V->isInvalidDecl() && !V->getType()->isDependentType() &&
            !V->getDeclContext()->isDependentContext())
            varId(V);
        return true;
    }
    void finish()
    {
        for (auto& [q, v] : globals)
            OS << v << "\n";
        Object o;
        o["k"] = "tables";
        Array t;
        for (auto& v : types)
            t.push_back(std::move(v));
        Array f;
        for (auto& v : funcs)
            f.push_back(std::move(v));
        o["types"] = std::move(t);
        o["funcs"] = std::move(f);
        emit(std::move(o));
    }

private:
    ASTContext& C;
    SourceManager& SM;
    llvm::raw_ostream& OS;
    PrintingPolicy PP;
    std::map<FileID, bool> rootCache;
    std::map<void*, int> typeIdx;
    std::vector<Value> types;
    std::map<const FunctionDecl*, int> funcIdx;
    std::vector<Value> funcs;
    std::map<const ValueDecl*, int> varIdx;
    std::map<std::string, Value> globals;
    std::set<const FunctionDecl*> done;
};

class Consumer : public ASTConsumer
{
public:
    void HandleTranslationUnit(ASTContext& C) override
    {
        if (C.getDiagnostics().hasErrorOccurred())
            return;
        std::error_code ec;
        llvm::raw_fd_ostream os(gOut, ec);
        Dumper d(C, os);
        d.TraverseDecl(C.getTranslationUnitDecl());
        d.finish();
    }
};
class Action : public ASTFrontendAction
{
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Consumer>(); }
};

int main(int argc, const char** argv)
{
    if (argc < 5)
    {
        llvm::errs() << "usage: mkfacts ROOT OUT SOURCE -- flags\n";
        return 2;
    }
    gRoot = argv[1];
    gOut = argv[2];
    std::string src = argv[3];
    int n = argc - 4;
    std::string err;
    auto db = tooling::FixedCompilationDatabase::loadFromCommandLine(n, argv + 4, err);
    if (!db)
    {
        llvm::errs() << err << "\n";
        return 2;
    }
    tooling::ClangTool tool(*db, {src});
    tool.setPrintErrorMessage(true);
    return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
