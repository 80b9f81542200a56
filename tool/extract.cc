// Fact extractor: parses one translation unit with the real build's flags and
// dumps every function definition located under a root directory as JSON: the
// resolved syntax tree, the control flow graph, and the declarations used.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
using llvm::json::OStream;

static std::string gRoot, gMain, gOut;

namespace {

class Dumper : public RecursiveASTVisitor<Dumper> {
  public:
    Dumper(ASTContext &ctx, OStream &J) : C(ctx), J(J), SM(ctx.getSourceManager()), Pol(ctx.getPrintingPolicy()),
        MC(ItaniumMangleContext::create(ctx, ctx.getDiagnostics())) {
        Pol.SuppressTagKeyword = true; Pol.FullyQualifiedName = true; Pol.PrintCanonicalTypes = true; Pol.Bool = true;
        Sug = ctx.getPrintingPolicy(); Sug.SuppressTagKeyword = true; Sug.Bool = true;
        BO.setAllAlwaysAdd(); BO.AddInitializers = true; BO.AddImplicitDtors = false; BO.PruneTriviallyFalseEdges = true;
    }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool shouldVisitLambdaBody() const { return true; }

    std::string fileOf(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        auto F = SM.getFileEntryRefForID(SM.getFileID(L));
        if (!F) return "";
        auto P = F->getFileEntry().tryGetRealPathName();
        return P.empty() ? F->getName().str() : P.str();
    }
    unsigned lineOf(SourceLocation L) { return L.isValid() ? SM.getExpansionLineNumber(L) : 0; }
    bool inRoot(SourceLocation L) {
        if (L.isInvalid()) return false;
        auto f = fileOf(L);
        return f.size() > gRoot.size() && f.compare(0, gRoot.size(), gRoot) == 0 && f[gRoot.size()] == '/' &&
               f.find("/third_party/") == std::string::npos && f.find("/_build/") == std::string::npos;
    }
    std::string rel(SourceLocation L) {
        auto f = fileOf(L);
        return f.compare(0, gRoot.size() + 1, gRoot + "/") == 0 ? f.substr(gRoot.size() + 1) : f;
    }

    // ---- tables -------------------------------------------------------
    int ty(QualType T, bool sugar = false) {
        if (T.isNull()) return -1;
        std::string s = sugar ? T.getAsString(Sug) : T.getCanonicalType().getAsString(Pol);
        auto r = Types.emplace(s, static_cast<int>(Types.size()));
        if (r.second) TypeList.push_back(s);
        return r.first->second;
    }
    int declId(const Decl *D) {
        D = D->getCanonicalDecl();
        auto r = Decls.emplace(D, static_cast<int>(Decls.size()));
        return r.first->second;
    }
    std::string mangled(const FunctionDecl *FD) {
        FD = FD->getCanonicalDecl();
        auto it = Mangled.find(FD);
        if (it != Mangled.end()) return it->second;
        std::string s;
        if (FD->isDependentContext() || FD->getType()->isDependentType()) {
            s = "dep:" + FD->getQualifiedNameAsString() + "@" + rel(FD->getLocation()) + ":" + std::to_string(lineOf(FD->getLocation()));
        } else if (!MC->shouldMangleDeclName(FD)) {
            s = FD->getNameAsString();
        } else {
            llvm::raw_string_ostream os(s);
            if (auto *CD = dyn_cast<CXXConstructorDecl>(FD)) MC->mangleName(GlobalDecl(CD, Ctor_Complete), os);
            else if (auto *DD = dyn_cast<CXXDestructorDecl>(FD)) MC->mangleName(GlobalDecl(DD, Dtor_Complete), os);
            else MC->mangleName(GlobalDecl(FD), os);
            os.flush();
        }
        if (!FD->isExternallyVisible()) s = gMain + "|" + s;
        Mangled[FD] = s;
        return s;
    }
    std::string recName(const CXXRecordDecl *R) {
        if (!R) return "";
        if (R->isLambda()) {
            return "lambda@" + rel(R->getLocation()) + ":" + std::to_string(lineOf(R->getLocation())) + ":" +
                   std::to_string(SM.getExpansionColumnNumber(R->getLocation()));
        }
        return C.getTypeDeclType(R).getCanonicalType().getAsString(Pol);
    }
    bool canThrow(const FunctionDecl *FD) {
        if (auto *FPT = FD->getType()->getAs<FunctionProtoType>()) {
            auto est = FPT->getExceptionSpecType();
            if (est == EST_Unevaluated || est == EST_Uninstantiated || est == EST_Unparsed) {
                return !isa<CXXDestructorDecl>(FD);
            }
            return FPT->canThrow() != CT_Cannot;
        }
        return true;
    }
    int fn(const FunctionDecl *FD) {
        const FunctionDecl *K = FD->getCanonicalDecl();
        auto it = Fns.find(K);
        if (it != Fns.end()) return it->second;
        int id = static_cast<int>(Fns.size());
        Fns[K] = id;
        FnList.push_back(FD);
        return id;
    }

    // ---- statements ---------------------------------------------------
    std::map<const Stmt *, int> Ids;
    int nid(const Stmt *S) { return Ids.emplace(S, static_cast<int>(Ids.size())).first->second; }

    static const Expr *strip(const Expr *E) {
        while (true) {
            if (auto *P = dyn_cast<ParenExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<ExprWithCleanups>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<ConstantExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = P->getReplacement(); continue; }
            if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) { E = P->getExpr(); continue; }
            if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) { E = P->getExpr(); continue; }
            if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<ImplicitCastExpr>(E)) {
                switch (P->getCastKind()) {
                    case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay: case CK_ArrayToPointerDecay:
                    case CK_UserDefinedConversion: case CK_ConstructorConversion: case CK_DerivedToBase:
                    case CK_UncheckedDerivedToBase: case CK_BuiltinFnToFnPtr:
                        E = P->getSubExpr(); continue;
                    default: break;
                }
            }
            break;
        }
        return E;
    }

    void stmt(const Stmt *S0) {
        if (!S0) { J.value(nullptr); return; }
        const Stmt *S = S0;
        if (auto *E = dyn_cast<Expr>(S)) {
            S = strip(E);
            // all wrappers share the id of the inner node
            if (S != S0) {
                const Expr *W = E;
                int id = nid(S);
                while (W != S) {
                    Ids[W] = id;
                    const Expr *N = one(W);
                    if (!N || N == W) break;
                    W = N;
                }
            }
        }
        int id = nid(S);
        Seen.insert(S);
        J.objectBegin();
        J.attribute("i", id);
        J.attribute("k", S->getStmtClassName());
        J.attribute("l", static_cast<int64_t>(lineOf(S->getBeginLoc())));
        std::vector<const Stmt *> kids;
        bool custom = false;
        if (auto *E = dyn_cast<Expr>(S)) {
            J.attribute("t", ty(E->getType()));
            if (E->isLValue()) J.attribute("lv", 1);
            if (!E->isValueDependent() && !E->isTypeDependent() && !E->getType().isNull() &&
                E->getType()->isIntegralOrEnumerationType() && !isa<InitListExpr>(E)) {
                Expr::EvalResult R;
                if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
                    llvm::SmallString<32> s; R.Val.getInt().toString(s, 10);
                    J.attribute("cv", s.str());
                }
            }
        }
        if (auto *D = dyn_cast<DeclRefExpr>(S)) {
            const ValueDecl *V = D->getDecl();
            ref(V);
        } else if (auto *M = dyn_cast<MemberExpr>(S)) {
            auto *V = M->getMemberDecl();
            J.attribute("name", V->getNameAsString());
            J.attribute("arrow", M->isArrow());
            if (auto *F = dyn_cast<FieldDecl>(V)) {
                J.attribute("field", recName(dyn_cast<CXXRecordDecl>(F->getParent())));
                if (F->isMutable()) J.attribute("mut", 1);
            } else if (auto *FD = dyn_cast<FunctionDecl>(V)) {
                J.attribute("fn", fn(FD));
            } else if (auto *VD = dyn_cast<VarDecl>(V)) {
                J.attribute("d", declId(VD)); J.attribute("dk", "global");
            }
        } else if (auto *B = dyn_cast<BinaryOperator>(S)) {
            J.attribute("op", B->getOpcodeStr());
        } else if (auto *U = dyn_cast<UnaryOperator>(S)) {
            J.attribute("op", UnaryOperator::getOpcodeStr(U->getOpcode()));
            J.attribute("post", U->isPostfix());
        } else if (auto *I = dyn_cast<IntegerLiteral>(S)) {
            llvm::SmallString<32> s; I->getValue().toString(s, 10, I->getType()->isSignedIntegerType());
            J.attribute("v", s.str());
        } else if (auto *Bo = dyn_cast<CXXBoolLiteralExpr>(S)) {
            J.attribute("v", Bo->getValue() ? "1" : "0");
        } else if (auto *St = dyn_cast<StringLiteral>(S)) {
            if (St->getCharByteWidth() == 1) J.attribute("v", llvm::json::fixUTF8(St->getString()));
        } else if (auto *Ch = dyn_cast<CharacterLiteral>(S)) {
            J.attribute("v", std::to_string(Ch->getValue()));
        } else if (auto *Ca = dyn_cast<CastExpr>(S)) {
            J.attribute("ck", Ca->getCastKindName());
            J.attribute("explicit", !isa<ImplicitCastExpr>(Ca));
            if (auto *EC = dyn_cast<ExplicitCastExpr>(Ca)) J.attribute("wt", ty(EC->getTypeAsWritten(), true));
        } else if (auto *L = dyn_cast<LambdaExpr>(S)) {
            custom = true;
            J.attribute("fn", fn(L->getCallOperator()));
            if (auto *FT = L->getLambdaClass()->getDescribedClassTemplate()) (void)FT;
            if (L->isGenericLambda()) {
                J.attribute("generic", 1);
                J.attributeBegin("insts"); J.arrayBegin();
                if (auto *T = L->getCallOperator()->getDescribedFunctionTemplate())
                    for (auto *Sp : T->specializations()) J.value(fn(Sp));
                J.arrayEnd(); J.attributeEnd();
            }
            J.attributeBegin("caps"); J.arrayBegin();
            auto init = L->capture_init_begin();
            for (auto &cap : L->captures()) {
                J.objectBegin();
                if (cap.capturesThis()) J.attribute("this", 1);
                else if (cap.capturesVariable()) { J.attribute("d", declId(cap.getCapturedVar())); J.attribute("name", cap.getCapturedVar()->getNameAsString()); }
                J.attribute("byref", cap.getCaptureKind() == LCK_ByRef || cap.getCaptureKind() == LCK_This);
                J.attributeBegin("init"); stmt(init != L->capture_init_end() ? *init : nullptr); J.attributeEnd();
                if (init != L->capture_init_end()) ++init;
                J.objectEnd();
            }
            J.arrayEnd(); J.attributeEnd();
            J.attribute("cls", recName(L->getLambdaClass()));
        } else if (auto *DS = dyn_cast<DeclStmt>(S)) {
            custom = true;
            J.attributeBegin("decls"); J.arrayBegin();
            for (auto *D : DS->decls()) if (auto *V = dyn_cast<VarDecl>(D)) var(V);
            J.arrayEnd(); J.attributeEnd();
        } else if (auto *Th = dyn_cast<CXXThisExpr>(S)) {
            (void)Th;
        } else if (auto *N = dyn_cast<CXXNewExpr>(S)) {
            J.attribute("nt", ty(N->getAllocatedType()));
            J.attribute("placement", N->getNumPlacementArgs());
        } else if (auto *De = dyn_cast<CXXDeleteExpr>(S)) {
            (void)De;
        } else if (auto *Ct = dyn_cast<CXXCatchStmt>(S)) {
            J.attribute("ct", ty(Ct->getCaughtType()));
            J.attribute("all", Ct->getExceptionDecl() == nullptr);
            if (Ct->getExceptionDecl()) J.attribute("d", declId(Ct->getExceptionDecl()));
        } else if (auto *Fr = dyn_cast<CXXForRangeStmt>(S)) {
            J.attributeBegin("loopvar"); var(Fr->getLoopVariable(), false); J.attributeEnd();
        } else if (auto *If = dyn_cast<IfStmt>(S)) {
            custom = true;
            J.attribute("constexpr", If->isConstexpr());
            attr("init", If->getInit()); attr("condvar", If->getConditionVariableDeclStmt());
            attr("cond", If->getCond()); attr("then", If->getThen()); attr("else", If->getElse());
        } else if (auto *Sw = dyn_cast<SwitchStmt>(S)) {
            custom = true;
            attr("init", Sw->getInit()); attr("cond", Sw->getCond()); attr("body", Sw->getBody());
            J.attribute("allenum", Sw->isAllEnumCasesCovered());
        } else if (auto *Fo = dyn_cast<ForStmt>(S)) {
            custom = true;
            attr("init", Fo->getInit()); attr("cond", Fo->getCond()); attr("inc", Fo->getInc()); attr("body", Fo->getBody());
        } else if (auto *Wh = dyn_cast<WhileStmt>(S)) {
            custom = true;
            attr("condvar", Wh->getConditionVariableDeclStmt()); attr("cond", Wh->getCond()); attr("body", Wh->getBody());
        } else if (auto *Do = dyn_cast<DoStmt>(S)) {
            custom = true; attr("cond", Do->getCond()); attr("body", Do->getBody());
        } else if (auto *IL = dyn_cast<InitListExpr>(S)) {
            if (auto *Sem = IL->getSemanticForm()) IL = Sem;
            custom = true;
            J.attributeBegin("c"); J.arrayBegin();
            for (auto *I : IL->inits()) stmt(I);
            J.arrayEnd(); J.attributeEnd();
            if (auto *RD = IL->getType()->getAsCXXRecordDecl()) {
                J.attribute("rec", recName(RD));
                J.attributeBegin("fields"); J.arrayBegin();
                for (auto *F : RD->fields()) J.value(F->getNameAsString());
                J.arrayEnd(); J.attributeEnd();
            }
        }
        if (auto *Ce = dyn_cast<CallExpr>(S)) {
            custom = true;
            if (auto *FD = Ce->getDirectCallee()) J.attribute("fn", fn(FD));
            bool meth = false;
            if (auto *MCE = dyn_cast<CXXMemberCallExpr>(S)) {
                meth = true;
                attr("obj", MCE->getImplicitObjectArgument());
                J.attribute("virt", isVirtCall(MCE));
            } else if (auto *OC = dyn_cast<CXXOperatorCallExpr>(S)) {
                J.attribute("oper", getOperatorSpelling(OC->getOperator()));
                if (isa_and_nonnull<CXXMethodDecl>(OC->getDirectCallee())) {
                    meth = true; attr("obj", OC->getArg(0));
                    J.attributeBegin("args"); J.arrayBegin();
                    for (unsigned i = 1; i < OC->getNumArgs(); ++i) stmt(OC->getArg(i));
                    J.arrayEnd(); J.attributeEnd();
                    // callee expression is uninteresting
                    J.objectEnd();
                    return;
                }
            }
            (void)meth;
            if (!Ce->getDirectCallee()) attr("calleeexpr", Ce->getCallee());
            J.attributeBegin("args"); J.arrayBegin();
            for (auto *A : Ce->arguments()) stmt(A);
            J.arrayEnd(); J.attributeEnd();
        } else if (auto *Co = dyn_cast<CXXConstructExpr>(S)) {
            custom = true;
            J.attribute("fn", fn(Co->getConstructor()));
            J.attribute("rec", recName(Co->getConstructor()->getParent()));
            J.attribute("listinit", Co->isListInitialization());
            J.attributeBegin("args"); J.arrayBegin();
            for (auto *A : Co->arguments()) stmt(A);
            J.arrayEnd(); J.attributeEnd();
        }
        if (!custom) {
            J.attributeBegin("c"); J.arrayBegin();
            if (isa<UnaryExprOrTypeTraitExpr>(S)) {
            } else
                for (auto *K : S->children()) if (K) stmt(K);
            J.arrayEnd(); J.attributeEnd();
        }
        J.objectEnd();
    }
    static const Expr *one(const Expr *E) {
        if (auto *P = dyn_cast<ParenExpr>(E)) return P->getSubExpr();
        if (auto *P = dyn_cast<ExprWithCleanups>(E)) return P->getSubExpr();
        if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) return P->getSubExpr();
        if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) return P->getSubExpr();
        if (auto *P = dyn_cast<ConstantExpr>(E)) return P->getSubExpr();
        if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return P->getReplacement();
        if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) return P->getExpr();
        if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) return P->getExpr();
        if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) return P->getSubExpr();
        if (auto *P = dyn_cast<ImplicitCastExpr>(E)) return P->getSubExpr();
        return nullptr;
    }
    bool isVirtCall(const CXXMemberCallExpr *M) {
        auto *MD = M->getMethodDecl();
        if (!MD || !MD->isVirtual()) return false;
        if (auto *ME = dyn_cast<MemberExpr>(M->getCallee()->IgnoreParens())) if (ME->hasQualifier()) return false;
        return true;
    }
    void attr(const char *n, const Stmt *S) { if (S) { J.attributeBegin(n); stmt(S); J.attributeEnd(); } }
    void ref(const ValueDecl *V) {
        J.attribute("name", V->getNameAsString());
        if (auto *FD = dyn_cast<FunctionDecl>(V)) { J.attribute("dk", "fn"); J.attribute("fn", fn(FD)); return; }
        if (auto *EC = dyn_cast<EnumConstantDecl>(V)) { J.attribute("dk", "enum"); J.attribute("q", EC->getQualifiedNameAsString()); return; }
        if (auto *B = dyn_cast<BindingDecl>(V)) {
            J.attribute("dk", "bind"); J.attribute("d", declId(B));
            return;
        }
        if (auto *P = dyn_cast<ParmVarDecl>(V)) { J.attribute("dk", "param"); J.attribute("d", declId(P)); return; }
        if (auto *VD = dyn_cast<VarDecl>(V)) {
            J.attribute("d", declId(VD));
            if (VD->isLocalVarDecl() && !VD->isStaticLocal()) J.attribute("dk", "local");
            else if (VD->isStaticLocal()) J.attribute("dk", VD->getTLSKind() != VarDecl::TLS_None ? "tls" : "slocal");
            else { J.attribute("dk", VD->getTLSKind() != VarDecl::TLS_None ? "tls" : "global"); J.attribute("q", VD->getQualifiedNameAsString());
                   J.attribute("const", VD->getType().isConstQualified()); }
            return;
        }
        if (auto *F = dyn_cast<FieldDecl>(V)) { J.attribute("dk", "field"); J.attribute("field", recName(dyn_cast<CXXRecordDecl>(F->getParent()))); return; }
        J.attribute("dk", "other");
    }
    void var(const VarDecl *V, bool withInit = true) {
        J.objectBegin();
        J.attribute("d", declId(V)); J.attribute("name", V->getNameAsString());
        J.attribute("t", ty(V->getType())); J.attribute("s", ty(V->getType(), true));
        J.attribute("l", static_cast<int64_t>(lineOf(V->getLocation())));
        if (V->isStaticLocal()) J.attribute("static", 1);
        if (V->getTLSKind() != VarDecl::TLS_None) J.attribute("tls", 1);
        if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
            J.attributeBegin("binds"); J.arrayBegin();
            for (auto *B : DD->bindings()) {
                J.objectBegin();
                J.attribute("d", declId(B)); J.attribute("name", B->getNameAsString()); J.attribute("t", ty(B->getType()));
                if (auto *H = B->getHoldingVar()) J.attribute("h", declId(H));
                J.objectEnd();
            }
            J.arrayEnd(); J.attributeEnd();
        }
        if (withInit && V->getInit()) { J.attributeBegin("init"); stmt(V->getInit()); J.attributeEnd(); }
        J.objectEnd();
    }

    // ---- functions ----------------------------------------------------
    bool VisitFunctionDecl(FunctionDecl *FD) {
        if (!FD->isThisDeclarationADefinition() && !FD->isDefaulted()) return true;
        if (FD->isDependentContext() || FD->getType()->isDependentType()) return true;
        if (!inRoot(FD->getLocation())) return true;
        if (!FD->doesThisDeclarationHaveABody() || !FD->getBody()) return true;
        if (!Done.insert(FD->getCanonicalDecl()).second) return true;
        function(FD);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *R) {
        if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return true;
        if (!inRoot(R->getLocation())) return true;
        Recs.push_back(R);
        return true;
    }
    bool VisitEnumDecl(EnumDecl *E) {
        if (E->isThisDeclarationADefinition() && inRoot(E->getLocation()) && !E->isDependentContext()) Enums.push_back(E);
        return true;
    }
    bool VisitVarDecl(VarDecl *V) {
        if (isa<ParmVarDecl>(V) || V->isLocalVarDecl() || V->getDeclContext()->isDependentContext()) return true;
        if (V->isFileVarDecl() && inRoot(V->getLocation()) && V->isThisDeclarationADefinition() && !V->getType()->isDependentType()) Globals.push_back(V);
        return true;
    }

    void function(const FunctionDecl *FD) {
        J.objectBegin();
        J.attribute("fn", fn(FD));
        J.attribute("file", rel(FD->getLocation()));
        J.attribute("line", static_cast<int64_t>(lineOf(FD->getBeginLoc())));
        J.attribute("end", static_cast<int64_t>(lineOf(FD->getEndLoc())));
        J.attribute("ret", ty(FD->getReturnType()));
        J.attribute("rets", ty(FD->getReturnType(), true));
        J.attributeBegin("params"); J.arrayBegin();
        for (auto *P : FD->parameters()) {
            J.objectBegin();
            J.attribute("d", declId(P)); J.attribute("name", P->getNameAsString());
            J.attribute("t", ty(P->getType())); J.attribute("s", ty(P->getType(), true));
            J.objectEnd();
        }
        J.arrayEnd(); J.attributeEnd();
        if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
            if (auto *R = MD->getParent(); R->isLambda()) {
                if (auto *PF = dyn_cast_or_null<FunctionDecl>(R->getParentFunctionOrMethod())) J.attribute("parent", fn(PF));
            }
        }
        if (auto *TA = FD->getTemplateSpecializationArgs()) {
            J.attributeBegin("targs"); J.arrayBegin();
            for (auto &A : TA->asArray()) { std::string s; llvm::raw_string_ostream os(s); A.print(Pol, os, true); J.value(os.str()); }
            J.arrayEnd(); J.attributeEnd();
        }
        if (auto *CD = dyn_cast<CXXConstructorDecl>(FD)) {
            J.attribute("copyctor", CD->isCopyConstructor()); J.attribute("movector", CD->isMoveConstructor());
            J.attributeBegin("inits"); J.arrayBegin();
            for (auto *I : CD->inits()) {
                J.objectBegin();
                if (I->isAnyMemberInitializer()) J.attribute("member", I->getAnyMember()->getNameAsString());
                else if (I->isBaseInitializer()) J.attribute("base", recName(I->getBaseClass()->getAsCXXRecordDecl()));
                else J.attribute("delegating", 1);
                J.attribute("written", I->isWritten());
                J.attributeBegin("e"); stmt(I->getInit()); J.attributeEnd();
                J.objectEnd();
            }
            J.arrayEnd(); J.attributeEnd();
        }
        J.attributeBegin("body"); stmt(FD->getBody()); J.attributeEnd();
        auto cfg = CFG::buildCFG(FD, FD->getBody(), &C, BO);
        std::vector<const Stmt *> extra;
        if (cfg) {
            J.attributeBegin("cfg"); J.objectBegin();
            J.attribute("entry", static_cast<int64_t>(cfg->getEntry().getBlockID()));
            J.attribute("exit", static_cast<int64_t>(cfg->getExit().getBlockID()));
            J.attributeBegin("blocks"); J.arrayBegin();
            for (auto *B : *cfg) {
                J.objectBegin();
                J.attribute("b", static_cast<int64_t>(B->getBlockID()));
                J.attributeBegin("e"); J.arrayBegin();
                for (auto &El : *B) {
                    if (auto S = El.getAs<CFGStmt>()) {
                        const Stmt *St = S->getStmt();
                        if (auto *Ex = dyn_cast<Expr>(St)) if (strip(Ex) != Ex) continue;
                        if (!Ids.count(St)) extra.push_back(St);
                        J.value(nid(St));
                    } else if (auto I = El.getAs<CFGInitializer>()) {
                        auto *In = I->getInitializer();
                        J.objectBegin();
                        if (In->isAnyMemberInitializer()) J.attribute("member", In->getAnyMember()->getNameAsString());
                        const Expr *X = strip(In->getInit());
                        J.attribute("e", nid(X));
                        J.objectEnd();
                    }
                }
                J.arrayEnd(); J.attributeEnd();
                if (auto *T = B->getTerminatorStmt()) {
                    J.attribute("tk", T->getStmtClassName());
                    J.attribute("ts", nid(T));
                    J.attribute("tl", static_cast<int64_t>(lineOf(T->getBeginLoc())));
                    if (auto *BOp = dyn_cast<BinaryOperator>(T)) J.attribute("top", BOp->getOpcodeStr());
                    const Stmt *cond = B->getTerminatorCondition(false);
                    if (auto *E = dyn_cast_or_null<Expr>(cond)) { J.attribute("tc", nid(strip(E))); if (!Ids.count(E)) extra.push_back(E); }
                }
                if (auto *L = B->getLabel()) {
                    J.attribute("lk", L->getStmtClassName());
                    J.attribute("ls", nid(L));
                }
                if (B->hasNoReturnElement()) J.attribute("noret", 1);
                J.attributeBegin("s"); J.arrayBegin();
                for (auto &Su : B->succs()) { if (const CFGBlock *X = Su.getReachableBlock()) J.value(static_cast<int64_t>(X->getBlockID())); else J.value(nullptr); }
                J.arrayEnd(); J.attributeEnd();
                J.objectEnd();
            }
            J.arrayEnd(); J.attributeEnd();
            J.objectEnd(); J.attributeEnd();
        }
        J.attributeBegin("extra"); J.arrayBegin();
        for (auto *S : extra) stmt(S);
        J.arrayEnd(); J.attributeEnd();
        J.objectEnd();
    }

    void tables() {
        J.attributeBegin("records"); J.arrayBegin();
        for (auto *R : Recs) {
            J.objectBegin();
            J.attribute("name", recName(R)); J.attribute("short", R->getNameAsString());
            J.attribute("qn", R->getQualifiedNameAsString());
            J.attribute("file", rel(R->getLocation())); J.attribute("line", static_cast<int64_t>(lineOf(R->getLocation())));
            J.attribute("union", R->isUnion()); J.attribute("anon", R->isAnonymousStructOrUnion());
            J.attributeBegin("bases"); J.arrayBegin();
            for (auto &B : R->bases()) if (auto *BR = B.getType()->getAsCXXRecordDecl()) J.value(recName(BR));
            J.arrayEnd(); J.attributeEnd();
            J.attributeBegin("fields"); J.arrayBegin();
            for (auto *F : R->fields()) {
                J.objectBegin();
                J.attribute("name", F->getNameAsString()); J.attribute("t", ty(F->getType())); J.attribute("s", ty(F->getType(), true));
                J.attribute("l", static_cast<int64_t>(lineOf(F->getLocation()))); if (F->isMutable()) J.attribute("mut", 1);
                if (F->isAnonymousStructOrUnion()) J.attribute("anon", 1);
                if (F->isBitField()) J.attribute("bits", static_cast<int64_t>(F->getBitWidthValue(C)));
                if (F->hasInClassInitializer()) J.attribute("hasinit", 1);
                J.objectEnd();
            }
            J.arrayEnd(); J.attributeEnd();
            J.attributeBegin("methods"); J.arrayBegin();
            for (auto *M : R->methods()) {
                J.objectBegin();
                J.attribute("fn", fn(M)); J.attribute("virt", M->isVirtual()); J.attribute("pure", M->isPureVirtual());
                J.attribute("defaulted", M->isDefaulted()); J.attribute("deleted", M->isDeleted()); J.attribute("user", M->isUserProvided());
                if (auto *CD = dyn_cast<CXXConstructorDecl>(M)) { J.attribute("copyctor", CD->isCopyConstructor()); J.attribute("movector", CD->isMoveConstructor()); }
                J.attribute("copyassign", M->isCopyAssignmentOperator()); J.attribute("moveassign", M->isMoveAssignmentOperator());
                J.attributeBegin("over"); J.arrayBegin();
                for (auto *O : M->overridden_methods()) J.value(fn(O));
                J.arrayEnd(); J.attributeEnd();
                J.objectEnd();
            }
            J.arrayEnd(); J.attributeEnd();
            J.objectEnd();
        }
        J.arrayEnd(); J.attributeEnd();
        J.attributeBegin("enums"); J.arrayBegin();
        for (auto *E : Enums) {
            J.objectBegin(); J.attribute("qn", E->getQualifiedNameAsString());
            J.attributeBegin("vals"); J.arrayBegin();
            for (auto *X : E->enumerators()) { J.arrayBegin(); J.value(X->getNameAsString()); J.value(X->getInitVal().getExtValue()); J.arrayEnd(); }
            J.arrayEnd(); J.attributeEnd(); J.objectEnd();
        }
        J.arrayEnd(); J.attributeEnd();
        J.attributeBegin("globals"); J.arrayBegin();
        for (auto *V : Globals) {
            Ids.clear();
            J.objectBegin();
            J.attribute("qn", V->getQualifiedNameAsString()); J.attribute("name", V->getNameAsString()); J.attribute("t", ty(V->getType()));
            J.attribute("d", declId(V));
            J.attribute("file", rel(V->getLocation())); J.attribute("line", static_cast<int64_t>(lineOf(V->getLocation())));
            J.attribute("const", V->getType().isConstQualified()); J.attribute("tls", V->getTLSKind() != VarDecl::TLS_None);
            if (V->getInit() && !V->getInit()->isValueDependent()) { J.attributeBegin("init"); stmt(V->getInit()); J.attributeEnd(); }
            J.objectEnd();
        }
        J.arrayEnd(); J.attributeEnd();
        J.attributeBegin("fns"); J.arrayBegin();
        for (size_t i = 0; i < FnList.size(); ++i) {
            auto *FD = FnList[i];
            J.objectBegin();
            J.attribute("id", mangled(FD)); J.attribute("name", FD->getNameAsString()); J.attribute("q", FD->getQualifiedNameAsString());
            if (auto *M = dyn_cast<CXXMethodDecl>(FD)) {
                J.attribute("cls", recName(M->getParent())); J.attribute("const", M->isConst()); J.attribute("static", M->isStatic());
                J.attribute("virt", M->isVirtual());
                J.attribute("kind", isa<CXXConstructorDecl>(FD) ? "ctor" : isa<CXXDestructorDecl>(FD) ? "dtor" : isa<CXXConversionDecl>(FD) ? "conv" : "method");
                if (M->getParent()->isLambda()) J.attribute("lambda", 1);
            }
            J.attribute("throws", canThrow(FD)); J.attribute("extc", FD->isExternC());
            if (FD->isNoReturn()) J.attribute("noret", 1);
            J.attribute("inroot", inRoot(FD->getLocation()));
            J.attribute("ret", ty(FD->getReturnType()));
            J.attribute("rets", ty(FD->getReturnType(), true));
            J.attributeBegin("pt"); J.arrayBegin();
            for (auto *P : FD->parameters()) J.value(ty(P->getType()));
            J.arrayEnd(); J.attributeEnd();
            J.attribute("file", rel(FD->getLocation())); J.attribute("line", static_cast<int64_t>(lineOf(FD->getLocation())));
            J.objectEnd();
        }
        J.arrayEnd(); J.attributeEnd();
        J.attributeBegin("types"); J.arrayBegin();
        for (auto &t : TypeList) J.value(llvm::json::fixUTF8(t));
        J.arrayEnd(); J.attributeEnd();
    }

    void clearIds() { Ids.clear(); }

  private:
    ASTContext &C; OStream &J; SourceManager &SM; PrintingPolicy Pol; PrintingPolicy Sug{LangOptions()};
    std::unique_ptr<MangleContext> MC;
    CFG::BuildOptions BO;
    std::map<std::string, int> Types; std::vector<std::string> TypeList;
    std::map<const Decl *, int> Decls; std::map<const FunctionDecl *, int> Fns; std::vector<const FunctionDecl *> FnList;
    std::map<const FunctionDecl *, std::string> Mangled;
    std::set<const Stmt *> Seen; std::set<const FunctionDecl *> Done;
    std::vector<CXXRecordDecl *> Recs; std::vector<EnumDecl *> Enums; std::vector<VarDecl *> Globals;
};

class Consumer : public ASTConsumer {
  public:
    void HandleTranslationUnit(ASTContext &C) override {
        if (C.getDiagnostics().hasErrorOccurred()) { llvm::errs() << "errors in " << gMain << "\n"; return; }
        std::error_code ec;
        llvm::raw_fd_ostream os(gOut, ec);
        if (ec) { llvm::errs() << ec.message() << "\n"; return; }
        OStream J(os);
        J.objectBegin();
        J.attribute("main", gMain);
        Dumper D(C, J);
        J.attributeBegin("functions"); J.arrayBegin();
        D.TraverseDecl(C.getTranslationUnitDecl());
        J.arrayEnd(); J.attributeEnd();
        D.tables();
        J.objectEnd();
        Ok = true;
    }
    static bool Ok;
};
bool Consumer::Ok = false;

class Action : public ASTFrontendAction {
  public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};

} // namespace

// usage: extract ROOT MAIN OUT -- flags...
int main(int argc, const char **argv) {
    if (argc < 5) { llvm::errs() << "usage: extract ROOT FILE OUT -- FLAGS\n"; return 2; }
    gRoot = argv[1]; gMain = argv[2]; gOut = argv[3];
    std::vector<std::string> flags(argv + 5, argv + argc);
    tooling::FixedCompilationDatabase DB(gRoot, flags);
    tooling::ClangTool Tool(DB, {gRoot + "/" + gMain});
    int r = Tool.run(tooling::newFrontendActionFactory<Action>().get());
    return r != 0 || !Consumer::Ok ? 2 : 0;
}
