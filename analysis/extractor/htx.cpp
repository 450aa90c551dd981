// htx: dumps the resolved, instantiated syntax trees of every htool function
// reached by a driver translation unit as JSON (one object per line).
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/ASTLambda.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string gRepo, gOut, gDriver;

class Dumper {
    ASTContext &C;
    PrintingPolicy PP;
    std::map<const Decl *, int> ids;

  public:
    llvm::raw_ostream &OS;
    std::set<const FunctionDecl *> done, pending;
    std::vector<const FunctionDecl *> queue;
    std::set<const CXXRecordDecl *> recs;
    std::vector<const CXXRecordDecl *> recqueue;

    Dumper(ASTContext &c, llvm::raw_ostream &os) : C(c), PP(c.getPrintingPolicy()), OS(os) {
        PP.SuppressTagKeyword = true;
        PP.Bool = true;
    }
    int id(const Decl *D) {
        if (!D) return -1;
        const Decl *K = D->getCanonicalDecl();
        auto it = ids.find(K);
        if (it != ids.end()) return it->second;
        int n = (int)ids.size() + 1;
        ids[K] = n;
        return n;
    }
    std::string ty(QualType T) {
        if (T.isNull()) return "";
        return T.getCanonicalType().getAsString(PP);
    }
    int line(SourceLocation L) {
        if (L.isInvalid()) return 0;
        return (int)C.getSourceManager().getExpansionLineNumber(L);
    }
    std::string file(SourceLocation L) {
        if (L.isInvalid()) return "";
        auto &SM = C.getSourceManager();
        auto F = SM.getFilename(SM.getExpansionLoc(L)).str();
        return F;
    }
    bool inScope(const Decl *D) {
        std::string F = file(D->getLocation());
        return F.find(gRepo) == 0 || F == gDriver;
    }
    std::string qn(const NamedDecl *D) {
        // qualified name without template arguments
        std::string s;
        llvm::raw_string_ostream os(s);
        const DeclContext *DC = D->getDeclContext();
        std::vector<std::string> parts;
        while (DC && !DC->isTranslationUnit()) {
            if (auto *N = dyn_cast<NamespaceDecl>(DC)) {
                if (!N->isInline()) parts.push_back(N->getNameAsString());
            } else if (auto *R = dyn_cast<RecordDecl>(DC)) {
                parts.push_back(R->getNameAsString());
            } else if (auto *F = dyn_cast<FunctionDecl>(DC)) {
                parts.push_back(F->getNameAsString());
            }
            DC = DC->getParent();
        }
        for (auto it = parts.rbegin(); it != parts.rend(); ++it) os << *it << "::";
        if (isa<CXXConstructorDecl>(D)) os << "(ctor)";
        else if (isa<CXXDestructorDecl>(D)) os << "(dtor)";
        else os << D->getNameAsString();
        return os.str();
    }
    void need(const FunctionDecl *F) {
        if (!F) return;
        const FunctionDecl *Def = nullptr;
        if (!F->hasBody(Def) || !Def) {
            // defaulted special members: no body unless odr-used
            Def = F;
        }
        if (!inScope(Def)) return;
        if (done.insert(Def->getCanonicalDecl()).second) queue.push_back(Def);
    }
    void needRec(const CXXRecordDecl *R) {
        if (!R) return;
        R = R->getDefinition();
        if (!R || !inScope(R) || R->isDependentContext()) return;
        if (recs.insert(R).second) recqueue.push_back(R);
    }
    void needType(QualType T) {
        if (T.isNull()) return;
        T = T.getCanonicalType();
        while (T->isPointerType() || T->isReferenceType()) T = T->getPointeeType();
        if (auto *R = T->getAsCXXRecordDecl()) {
            needRec(R);
            if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R))
                for (auto &A : S->getTemplateArgs().asArray())
                    if (A.getKind() == TemplateArgument::Type) {
                        QualType U = A.getAsType();
                        while (U->isPointerType() || U->isReferenceType()) U = U->getPointeeType();
                        if (auto *RR = U->getAsCXXRecordDecl())
                            if (recs.count(RR->getDefinition()) == 0) needType(U);
                    }
        }
    }

    // ---------------------------------------------------------------- expr
    Array exprs(llvm::iterator_range<CallExpr::const_arg_iterator> R) {
        Array A;
        for (auto *E : R) A.push_back(expr(E));
        return A;
    }
    Object base(const char *k, const Stmt *S) {
        Object O;
        O["k"] = k;
        O["l"] = line(S->getBeginLoc());
        if (auto *E = dyn_cast<Expr>(S)) O["t"] = ty(E->getType());
        return O;
    }
    Value expr(const Expr *E) {
        if (!E) return nullptr;
        if (auto *P = dyn_cast<ParenExpr>(E)) return expr(P->getSubExpr());
        if (auto *P = dyn_cast<ExprWithCleanups>(E)) return expr(P->getSubExpr());
        if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) return expr(P->getSubExpr());
        if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(P->getSubExpr());
        if (auto *P = dyn_cast<ConstantExpr>(E)) return expr(P->getSubExpr());
        if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(P->getReplacement());
        if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) {
            return expr(P->getExpr());
        }
        if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) return expr(P->getExpr());
        if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) return expr(P->getSubExpr());
        if (auto *P = dyn_cast<ImplicitCastExpr>(E)) {
            switch (P->getCastKind()) {
            case CK_IntegralToFloating:
            case CK_FloatingToIntegral:
            case CK_FloatingCast:
            case CK_IntegralCast:
            case CK_IntegralToBoolean:
            case CK_PointerToBoolean:
            case CK_FloatingToBoolean:
            case CK_NullToPointer: {
                Object O = base("icast", E);
                O["ck"] = P->getCastKindName();
                O["e"] = expr(P->getSubExpr());
                return O;
            }
            case CK_LValueToRValue: {
                // keep only for by-value reads of records etc: skip
                return expr(P->getSubExpr());
            }
            default: return expr(P->getSubExpr());
            }
        }
        if (auto *L = dyn_cast<IntegerLiteral>(E)) {
            Object O = base("int", E);
            O["v"] = (int64_t)L->getValue().getLimitedValue();
            return O;
        }
        if (auto *L = dyn_cast<FloatingLiteral>(E)) {
            Object O = base("float", E);
            O["v"] = L->getValueAsApproximateDouble();
            return O;
        }
        if (auto *L = dyn_cast<CharacterLiteral>(E)) {
            Object O = base("char", E);
            O["v"] = std::string(1, (char)L->getValue());
            return O;
        }
        if (auto *L = dyn_cast<CXXBoolLiteralExpr>(E)) {
            Object O = base("bool", E);
            O["v"] = L->getValue();
            return O;
        }
        if (auto *L = dyn_cast<clang::StringLiteral>(E)) {
            Object O = base("str", E);
            O["v"] = L->isOrdinary() ? llvm::json::fixUTF8(L->getString()) : std::string("?");
            return O;
        }
        if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return base("null", E);
        if (auto *D = dyn_cast<DeclRefExpr>(E)) {
            Object O = base("ref", E);
            const ValueDecl *VD = D->getDecl();
            O["n"] = VD->getNameAsString();
            O["id"] = id(VD);
            if (auto *PV = dyn_cast<ParmVarDecl>(VD)) {
                (void)PV;
                O["d"] = "parm";
            } else if (auto *V = dyn_cast<VarDecl>(VD)) {
                O["d"] = V->isStaticLocal() ? "static" : (V->hasGlobalStorage() ? "global" : "var");
                if (V->hasGlobalStorage()) O["q"] = qn(V);
                if (V->getType()->isIntegralOrEnumerationType() && V->getType().isConstQualified() && V->getInit() && !V->getInit()->isValueDependent() && !V->getInit()->isInstantiationDependent() && V->isUsableInConstantExpressions(C)) {
                    if (auto *AV = V->evaluateValue())
                        if (AV->isInt()) O["cv"] = (int64_t)AV->getInt().getExtValue();
                }
            } else if (auto *F = dyn_cast<FunctionDecl>(VD)) {
                O["d"] = "func";
                O["q"] = qn(F);
                need(F);
            } else if (auto *EC = dyn_cast<EnumConstantDecl>(VD)) {
                O["d"] = "enum";
                O["q"] = qn(EC);
                O["v"] = (int64_t)EC->getInitVal().getExtValue();
            } else if (isa<FieldDecl>(VD)) {
                O["d"] = "field";
                O["q"] = qn(VD);
            } else {
                O["d"] = VD->getDeclKindName();
                O["q"] = qn(VD);
            }
            needType(VD->getType());
            return O;
        }
        if (auto *M = dyn_cast<MemberExpr>(E)) {
            Object O = base("mem", E);
            O["n"] = M->getMemberDecl()->getNameAsString();
            O["q"] = qn(M->getMemberDecl());
            O["id"] = id(M->getMemberDecl());
            O["arrow"] = M->isArrow();
            O["b"] = expr(M->getBase());
            if (auto *F = dyn_cast<FunctionDecl>(M->getMemberDecl())) {
                O["d"] = "func";
                need(F);
            } else if (isa<VarDecl>(M->getMemberDecl()))
                O["d"] = "static";
            else
                O["d"] = "field";
            needType(M->getBase()->getType());
            return O;
        }
        if (auto *Op = dyn_cast<CXXOperatorCallExpr>(E)) {
            Object O = base("opcall", E);
            O["op"] = getOperatorSpelling(Op->getOperator());
            if (auto *F = Op->getDirectCallee()) {
                O["f"] = id(F);
                O["q"] = qn(F);
                O["meth"] = isa<CXXMethodDecl>(F);
                if (auto *MD = dyn_cast<CXXMethodDecl>(F)) O["const"] = MD->isConst();
                O["pt"] = ptypes(F);
                need(F);
            }
            O["args"] = exprs(Op->arguments());
            return O;
        }
        if (auto *M = dyn_cast<CXXMemberCallExpr>(E)) {
            Object O = base("mcall", E);
            auto *F = M->getMethodDecl();
            if (F) {
                O["f"] = id(F);
                O["q"] = qn(F);
                O["n"] = F->getNameAsString();
                O["virt"] = F->isVirtual();
                O["const"] = F->isConst();
                O["pt"] = ptypes(F);
                need(F);
                if (F->isVirtual())
                    virt.insert(F->getCanonicalDecl());
            } else {
                O["fe"] = expr(M->getCallee());
            }
            if (auto *ME = dyn_cast<MemberExpr>(M->getCallee()->IgnoreParens())) {
                O["arrow"] = ME->isArrow();
                O["qual"] = ME->hasQualifier();
            }
            if (auto *Obj = M->getImplicitObjectArgument()) {
                O["obj"] = expr(Obj);
                needType(Obj->getType());
                O["ot"] = ty(Obj->getType());
            }
            O["args"] = exprs(M->arguments());
            return O;
        }
        if (auto *CE = dyn_cast<CallExpr>(E)) {
            if (auto *F = CE->getDirectCallee()) {
                Expr::EvalResult R;
                if (F->isConstexpr() && CE->getNumArgs() == 0 && CE->getType()->isIntegralOrEnumerationType() && !CE->isValueDependent() && CE->EvaluateAsRValue(R, C) && R.Val.isInt() && !R.HasSideEffects) {
                    bool B   = CE->getType()->isBooleanType();
                    Object O = base(B ? "bool" : "int", E);
                    if (B)
                        O["v"] = R.Val.getInt().getBoolValue();
                    else
                        O["v"] = (int64_t)R.Val.getInt().getExtValue();
                    return O;
                }
            }
            Object O = base("call", E);
            if (auto *F = CE->getDirectCallee()) {
                O["f"] = id(F);
                O["q"] = qn(F);
                O["n"] = F->getNameAsString();
                O["pt"] = ptypes(F);
                O["targs"] = targs(F);
                need(F);
            } else
                O["fe"] = expr(CE->getCallee());
            O["args"] = exprs(CE->arguments());
            return O;
        }
        if (auto *CE = dyn_cast<CXXConstructExpr>(E)) {
            Object O = base("ctor", E);
            auto *D = CE->getConstructor();
            O["f"] = id(D);
            O["q"] = qn(D->getParent());
            O["copy"] = D->isCopyConstructor();
            O["move"] = D->isMoveConstructor();
            O["elid"] = CE->isElidable();
            O["list"] = CE->isListInitialization();
            O["stdlist"] = CE->isStdInitListInitialization();
            O["pt"] = ptypes(D);
            need(D);
            needRec(D->getParent());
            Array A;
            for (auto *X : CE->arguments()) A.push_back(expr(X));
            O["args"] = std::move(A);
            return O;
        }
        if (auto *P = dyn_cast<CXXFunctionalCastExpr>(E)) {
            Object O = base("cast", E);
            O["ck"] = P->getCastKindName();
            O["e"] = expr(P->getSubExpr());
            if (P->getCastKind() == CK_ConstructorConversion || P->getCastKind() == CK_NoOp) return expr(P->getSubExpr());
            return O;
        }
        if (auto *P = dyn_cast<ExplicitCastExpr>(E)) {
            Object O = base("cast", E);
            O["ck"] = P->getCastKindName();
            O["cs"] = P->getStmtClassName();
            O["e"] = expr(P->getSubExpr());
            if (P->getCastKind() == CK_ConstructorConversion) return expr(P->getSubExpr());
            return O;
        }
        if (auto *U = dyn_cast<UnaryOperator>(E)) {
            Object O = base("un", E);
            O["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
            O["post"] = U->isPostfix();
            // &Class::member
            if (U->getOpcode() == UO_AddrOf)
                if (auto *DR = dyn_cast<DeclRefExpr>(U->getSubExpr()->IgnoreParens()))
                    if (auto *MD = dyn_cast<CXXMethodDecl>(DR->getDecl()))
                        if (MD->isInstance()) {
                            Object M = base("memptr", E);
                            M["f"] = id(MD);
                            M["q"] = qn(MD);
                            M["n"] = MD->getNameAsString();
                            need(MD);
                            return M;
                        }
            O["e"] = expr(U->getSubExpr());
            return O;
        }
        if (auto *B = dyn_cast<CompoundAssignOperator>(E)) {
            Object O = base("asg", E);
            O["op"] = B->getOpcodeStr().str();
            O["a"] = expr(B->getLHS());
            O["b"] = expr(B->getRHS());
            return O;
        }
        if (auto *B = dyn_cast<BinaryOperator>(E)) {
            Object O = base(B->isAssignmentOp() ? "asg" : "bin", E);
            O["op"] = B->getOpcodeStr().str();
            O["a"] = expr(B->getLHS());
            O["b"] = expr(B->getRHS());
            return O;
        }
        if (auto *CO = dyn_cast<ConditionalOperator>(E)) {
            Object O = base("cond", E);
            O["c"] = expr(CO->getCond());
            O["a"] = expr(CO->getTrueExpr());
            O["b"] = expr(CO->getFalseExpr());
            return O;
        }
        if (auto *A = dyn_cast<ArraySubscriptExpr>(E)) {
            Object O = base("idx", E);
            O["b"] = expr(A->getBase());
            O["i"] = expr(A->getIdx());
            return O;
        }
        if (auto *L = dyn_cast<LambdaExpr>(E)) {
            Object O = base("lambda", E);
            O["f"] = id(L->getCallOperator());
            need(L->getCallOperator());
            if (L->getCallOperator()->isTemplated() || L->isGenericLambda()) {
                O["generic"] = true;
                if (auto *FT = L->getCallOperator()->getDescribedFunctionTemplate()) {
                    Array S;
                    for (auto *Sp : FT->specializations()) {
                        S.push_back(id(Sp));
                        need(Sp);
                    }
                    O["specs"] = std::move(S);
                }
            }
            Array A;
            auto init = L->capture_init_begin();
            for (auto &Cp : L->captures()) {
                Object c;
                if (Cp.capturesVariable()) {
                    c["id"] = id(Cp.getCapturedVar());
                    c["n"] = Cp.getCapturedVar()->getNameAsString();
                    c["ref"] = Cp.getCaptureKind() == LCK_ByRef;
                    if (auto *VD = dyn_cast<VarDecl>(Cp.getCapturedVar()))
                        if (VD->isInitCapture()) c["init"] = expr(VD->getInit());
                } else if (Cp.capturesThis()) {
                    c["this"] = true;
                }
                A.push_back(std::move(c));
                ++init;
            }
            O["caps"] = std::move(A);
            return O;
        }
        if (auto *I = dyn_cast<InitListExpr>(E)) {
            const InitListExpr *S = I->isSemanticForm() ? I : I->getSemanticForm();
            if (!S) S = I;
            Object O = base("init", E);
            Array A;
            for (auto *X : S->inits()) A.push_back(expr(X));
            O["e"] = std::move(A);
            return O;
        }
        if (auto *N = dyn_cast<CXXNewExpr>(E)) {
            Object O = base("new", E);
            O["at"] = ty(N->getAllocatedType());
            O["array"] = N->isArray();
            if (N->isArray())
                if (auto S = N->getArraySize()) O["size"] = expr(*S);
            if (N->getInitializer()) O["init"] = expr(N->getInitializer());
            return O;
        }
        if (auto *D = dyn_cast<CXXDeleteExpr>(E)) {
            Object O = base("delete", E);
            O["array"] = D->isArrayForm();
            O["e"] = expr(D->getArgument());
            return O;
        }
        if (isa<CXXThisExpr>(E)) return base("this", E);
        if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) return base("zero", E);
        if (auto *T = dyn_cast<CXXThrowExpr>(E)) {
            Object O = base("throw", E);
            if (T->getSubExpr()) O["e"] = expr(T->getSubExpr());
            return O;
        }
        if (auto *S = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
            Object O = base("sizeof", E);
            O["at"] = ty(S->getTypeOfArgument());
            return O;
        }
        Object O = base("unk", E);
        O["cls"] = E->getStmtClassName();
        Array A;
        for (auto *Ch : E->children())
            if (Ch)
                if (auto *CE2 = dyn_cast<Expr>(Ch)) A.push_back(expr(CE2));
        O["e"] = std::move(A);
        return O;
    }
    Array ptypes(const FunctionDecl *F) {
        Array A;
        for (auto *P : F->parameters()) A.push_back(ty(P->getType()));
        return A;
    }
    Array targs(const FunctionDecl *F) {
        Array A;
        if (auto *L = F->getTemplateSpecializationArgs())
            for (auto &X : L->asArray())
                if (X.getKind() == TemplateArgument::Type) A.push_back(ty(X.getAsType()));
        return A;
    }
    std::set<const CXXMethodDecl *> virt;

    // ---------------------------------------------------------------- stmt
    Object var(const VarDecl *V) {
        Object O;
        O["k"] = "decl";
        O["l"] = line(V->getLocation());
        O["id"] = id(V);
        O["n"] = V->getNameAsString();
        O["t"] = ty(V->getType());
        O["static"] = V->isStaticLocal();
        needType(V->getType());
        if (V->getInit()) O["init"] = expr(V->getInit());
        return O;
    }
    Value stmt(const Stmt *S) {
        if (!S) return nullptr;
        if (auto *E = dyn_cast<Expr>(S)) {
            Object O;
            O["k"] = "expr";
            O["l"] = line(E->getBeginLoc());
            O["e"] = expr(E);
            return O;
        }
        if (auto *CS = dyn_cast<CompoundStmt>(S)) {
            Object O = base("block", S);
            Array A;
            for (auto *X : CS->body()) A.push_back(stmt(X));
            O["s"] = std::move(A);
            return O;
        }
        if (auto *D = dyn_cast<DeclStmt>(S)) {
            Object O = base("decls", S);
            Array A;
            for (auto *X : D->decls()) {
                if (auto *V = dyn_cast<VarDecl>(X)) A.push_back(var(V));
            }
            O["d"] = std::move(A);
            return O;
        }
        if (auto *I = dyn_cast<IfStmt>(S)) {
            Object O = base("if", S);
            if (I->getInit()) O["init"] = stmt(I->getInit());
            if (I->getConditionVariable()) O["cv"] = var(I->getConditionVariable());
            if (I->isConstexpr()) O["constexpr"] = true;
            O["c"] = expr(I->getCond());
            O["a"] = stmt(I->getThen());
            O["b"] = stmt(I->getElse());
            return O;
        }
        if (auto *F = dyn_cast<ForStmt>(S)) {
            Object O = base("for", S);
            O["init"] = stmt(F->getInit());
            O["c"] = expr(F->getCond());
            O["inc"] = expr(F->getInc());
            O["body"] = stmt(F->getBody());
            return O;
        }
        if (auto *F = dyn_cast<CXXForRangeStmt>(S)) {
            Object O = base("forrange", S);
            O["var"] = var(F->getLoopVariable());
            O["range"] = expr(F->getRangeInit());
            O["body"] = stmt(F->getBody());
            return O;
        }
        if (auto *W = dyn_cast<WhileStmt>(S)) {
            Object O = base("while", S);
            if (W->getConditionVariable()) O["cv"] = var(W->getConditionVariable());
            O["c"] = expr(W->getCond());
            O["body"] = stmt(W->getBody());
            return O;
        }
        if (auto *W = dyn_cast<DoStmt>(S)) {
            Object O = base("do", S);
            O["c"] = expr(W->getCond());
            O["body"] = stmt(W->getBody());
            return O;
        }
        if (auto *R = dyn_cast<ReturnStmt>(S)) {
            Object O = base("return", S);
            if (R->getRetValue()) O["e"] = expr(R->getRetValue());
            return O;
        }
        if (auto *W = dyn_cast<SwitchStmt>(S)) {
            Object O = base("switch", S);
            O["c"] = expr(W->getCond());
            O["body"] = stmt(W->getBody());
            return O;
        }
        if (auto *W = dyn_cast<CaseStmt>(S)) {
            Object O = base("case", S);
            O["v"] = expr(W->getLHS());
            O["s"] = stmt(W->getSubStmt());
            return O;
        }
        if (auto *W = dyn_cast<DefaultStmt>(S)) {
            Object O = base("default", S);
            O["s"] = stmt(W->getSubStmt());
            return O;
        }
        if (isa<BreakStmt>(S)) return base("break", S);
        if (isa<ContinueStmt>(S)) return base("continue", S);
        if (isa<NullStmt>(S)) return base("null_stmt", S);
        if (auto *T = dyn_cast<CXXTryStmt>(S)) {
            Object O = base("try", S);
            O["body"] = stmt(T->getTryBlock());
            Array A;
            for (unsigned i = 0; i < T->getNumHandlers(); i++) A.push_back(stmt(T->getHandler(i)->getHandlerBlock()));
            O["h"] = std::move(A);
            return O;
        }
        if (auto *D = dyn_cast<OMPExecutableDirective>(S)) {
            Object O = base("omp", S);
            O["dir"] = getOpenMPDirectiveName(D->getDirectiveKind()).str();
            Array Cl;
            for (auto *K : D->clauses()) {
                Object c;
                c["k"] = getOpenMPClauseName(K->getClauseKind()).str();
                Array v;
                for (auto *Ch : K->children())
                    if (Ch)
                        if (auto *E = dyn_cast<Expr>(Ch)) v.push_back(expr(E));
                c["v"] = std::move(v);
                if (auto *DC = dyn_cast<OMPDefaultClause>(K)) c["def"] = (int)DC->getDefaultKind();
                if (auto *RC = dyn_cast<OMPReductionClause>(K)) c["rop"] = RC->getNameInfo().getAsString();
                Cl.push_back(std::move(c));
            }
            O["clauses"] = std::move(Cl);
            if (auto *CD = dyn_cast<OMPCriticalDirective>(D)) O["name"] = CD->getDirectiveName().getAsString();
            if (D->hasAssociatedStmt()) {
                const Stmt *B = D->getRawStmt();
                O["body"] = stmt(B);
            }
            return O;
        }
        if (auto *CS = dyn_cast<CapturedStmt>(S)) return stmt(CS->getCapturedStmt());
        if (auto *CL = dyn_cast<OMPCanonicalLoop>(S)) return stmt(CL->getLoopStmt());
        if (auto *A = dyn_cast<AttributedStmt>(S)) return stmt(A->getSubStmt());
        Object O = base("unkstmt", S);
        O["cls"] = S->getStmtClassName();
        return O;
    }

    // ---------------------------------------------------------------- decl
    void function(const FunctionDecl *F) {
        Object O;
        O["kind"] = "func";
        O["id"] = id(F);
        O["q"] = qn(F);
        O["n"] = F->getNameAsString();
        O["file"] = file(F->getLocation());
        O["l"] = line(F->getLocation());
        O["ret"] = ty(F->getReturnType());
        O["targs"] = targs(F);
        Array P;
        for (auto *X : F->parameters()) {
            Object p;
            p["id"] = id(X);
            p["n"] = X->getNameAsString();
            p["t"] = ty(X->getType());
            needType(X->getType());
            if (X->hasDefaultArg() && !X->hasUnparsedDefaultArg()) {
                const Expr *D = X->hasUninstantiatedDefaultArg() ? X->getUninstantiatedDefaultArg() : X->getDefaultArg();
                if (D) {
                    for (int g = 0; g < 8; ++g) {
                        const Expr *Q = D->IgnoreImplicit()->IgnoreParenImpCasts();
                        if (auto *K = dyn_cast<CXXConstructExpr>(Q))
                            if (K->getNumArgs() >= 1 && StringRef(qn(K->getConstructor()->getParent())).starts_with("std::complex")) Q = K->getArg(0);
                        if (Q == D) break;
                        D = Q;
                    }
                    if (isa<IntegerLiteral>(D) || isa<FloatingLiteral>(D) || isa<CharacterLiteral>(D) || isa<CXXBoolLiteralExpr>(D) || isa<CXXNullPtrLiteralExpr>(D))
                        p["def"] = expr(D);
                    else
                        p["def"] = nullptr;
                }
            }
            P.push_back(std::move(p));
        }
        O["params"] = std::move(P);
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            O["cls"] = id(M->getParent());
            O["clsname"] = qn(M->getParent());
            O["clst"] = ty(C.getRecordType(M->getParent()));
            O["const"] = M->isConst();
            O["static"] = M->isStatic();
            O["virt"] = M->isVirtual();
            O["access"] = (int)M->getAccess();
            Array ov;
            for (auto *B : M->overridden_methods()) ov.push_back(id(B));
            O["overrides"] = std::move(ov);
            needRec(M->getParent());
            if (auto *CD = dyn_cast<CXXConstructorDecl>(M)) {
                O["ctor"] = true;
                O["copyctor"] = CD->isCopyConstructor();
                O["movector"] = CD->isMoveConstructor();
                Array I;
                for (auto *X : CD->inits()) {
                    Object o;
                    if (X->isAnyMemberInitializer()) {
                        o["field"] = X->getAnyMember()->getNameAsString();
                        o["fid"] = id(X->getAnyMember());
                        o["indef"] = X->isInClassMemberInitializer();
                    } else if (X->isBaseInitializer()) {
                        o["base"] = ty(QualType(X->getBaseClass(), 0));
                    } else if (X->isDelegatingInitializer()) {
                        o["deleg"] = true;
                    }
                    o["written"] = X->isWritten();
                    o["l"] = line(X->getSourceLocation());
                    if (X->getInit()) o["e"] = expr(X->getInit());
                    I.push_back(std::move(o));
                }
                O["inits"] = std::move(I);
            }
            if (isa<CXXDestructorDecl>(M)) O["dtor"] = true;
            O["copyasg"] = M->isCopyAssignmentOperator();
            O["moveasg"] = M->isMoveAssignmentOperator();
            if (isLambdaCallOperator(M)) O["lambda"] = true;
        }
        O["defaulted"] = F->isDefaulted();
        O["deleted"] = F->isDeleted();
        O["pure"] = F->isPureVirtual();
        const FunctionDecl *Def = nullptr;
        if (F->hasBody(Def) && Def) {
            O["hasbody"] = true;
            O["body"] = stmt(Def->getBody());
        } else
            O["hasbody"] = false;
        OS << Value(std::move(O)) << "\n";
    }
    void record(const CXXRecordDecl *R) {
        Object O;
        O["kind"] = "rec";
        O["id"] = id(R);
        O["q"] = qn(R);
        O["t"] = ty(C.getRecordType(R));
        O["file"] = file(R->getLocation());
        O["l"] = line(R->getLocation());
        O["lambda"] = R->isLambda();
        O["abstract"] = R->isAbstract();
        Array F;
        for (auto *X : R->fields()) {
            Object f;
            f["id"] = id(X);
            f["n"] = X->getNameAsString();
            f["t"] = ty(X->getType());
            f["l"] = line(X->getLocation());
            f["mutable"] = X->isMutable();
            if (X->hasInClassInitializer() && X->getInClassInitializer()) f["init"] = expr(X->getInClassInitializer());
            needType(X->getType());
            F.push_back(std::move(f));
        }
        O["fields"] = std::move(F);
        Array B;
        for (auto &X : R->bases()) {
            Object b;
            b["t"] = ty(X.getType());
            if (auto *BR = X.getType()->getAsCXXRecordDecl()) {
                b["id"] = id(BR);
                b["q"] = qn(BR);
                needRec(BR);
            }
            B.push_back(std::move(b));
        }
        O["bases"] = std::move(B);
        Array M;
        for (auto *X : R->methods()) {
            Object m;
            m["id"] = id(X);
            m["n"] = isa<CXXConstructorDecl>(X) ? std::string("(ctor)") : isa<CXXDestructorDecl>(X) ? std::string("(dtor)") : X->getNameAsString();
            m["pt"] = ptypes(X);
            m["const"] = X->isConst();
            m["virt"] = X->isVirtual();
            m["pure"] = X->isPureVirtual();
            m["deleted"] = X->isDeleted();
            m["defaulted"] = X->isDefaulted();
            m["implicit"] = X->isImplicit();
            m["user"] = X->isUserProvided();
            m["access"] = (int)X->getAccess();
            m["copyasg"] = X->isCopyAssignmentOperator();
            m["moveasg"] = X->isMoveAssignmentOperator();
            if (auto *CD = dyn_cast<CXXConstructorDecl>(X)) {
                m["copyctor"] = CD->isCopyConstructor();
                m["movector"] = CD->isMoveConstructor();
            }
            if (isa<CXXDestructorDecl>(X)) m["dtor"] = true;
            Array ov;
            for (auto *Bm : X->overridden_methods()) ov.push_back(id(Bm));
            m["overrides"] = std::move(ov);
            m["l"] = line(X->getLocation());
            M.push_back(std::move(m));
            const FunctionDecl *Def = nullptr;
            if (X->hasBody(Def) && !X->isTemplated()) need(X);
        }
        O["methods"] = std::move(M);
        OS << Value(std::move(O)) << "\n";
    }
    void drain() {
        while (!queue.empty() || !recqueue.empty()) {
            if (!queue.empty()) {
                auto *F = queue.back();
                queue.pop_back();
                function(F);
            } else {
                auto *R = recqueue.back();
                recqueue.pop_back();
                record(R);
            }
        }
    }
};

class V : public RecursiveASTVisitor<V> {
  public:
    Dumper &D;
    explicit V(Dumper &d) : D(d) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl *F) {
        if (F->isTemplated() || F->isDependentContext()) return true;
        if (!F->isThisDeclarationADefinition()) return true;
        D.need(F);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *R) {
        if (R->isThisDeclarationADefinition() && !R->isDependentContext() && !R->isLambda()) D.needRec(R);
        return true;
    }
};
class Consumer : public ASTConsumer {
  public:
    void HandleTranslationUnit(ASTContext &Ctx) override {
        std::error_code EC;
        llvm::raw_fd_ostream OS(gOut, EC);
        Dumper D(Ctx, OS);
        V v(D);
        v.TraverseDecl(Ctx.getTranslationUnitDecl());
        D.drain();
    }
};
class Action : public ASTFrontendAction {
  public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};
class Factory : public tooling::FrontendActionFactory {
  public:
    std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
};
// htx REPO_INCLUDE_PREFIX DRIVER OUT -- compiler args
int main(int argc, const char **argv) {
    if (argc < 5) return 2;
    gRepo = argv[1];
    gDriver = argv[2];
    gOut = argv[3];
    std::vector<std::string> args;
    for (int i = 5; i < argc; i++) args.push_back(argv[i]);
    tooling::FixedCompilationDatabase DB(".", args);
    tooling::ClangTool Tool(DB, {gDriver});
    Factory F;
    int rc = Tool.run(&F);
    return rc;
}
