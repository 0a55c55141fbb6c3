// astx: clang plugin that exports a compact, type-resolved tree of every function
// defined in the repository (template instantiations and lambdas included) as JSON.
//   clang++ -fsyntax-only -Xclang -load -Xclang astx.so -Xclang -plugin -Xclang astx
//           -Xclang -plugin-arg-astx -Xclang root=/repo -Xclang -plugin-arg-astx -Xclang out=F.json
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Frontend/FrontendPluginRegistry.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <set>
#include <map>
using namespace clang;
using llvm::json::Object;
using llvm::json::Array;
using llvm::json::Value;

static std::vector<std::string> Roots;
static std::string Out;

struct Exporter {
  ASTContext &Ctx;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl*, int> Ids;
  std::string CurFile;
  explicit Exporter(ASTContext &C) : Ctx(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true; PP.Bool = true;
    PP.SuppressUnwrittenScope = true; PP.TerseOutput = true; PP.SuppressInlineNamespace = true;
  }
  int id(const Decl *D) { D = D->getCanonicalDecl(); auto it = Ids.find(D); if (it != Ids.end()) return it->second; int n = Ids.size()+1; Ids[D]=n; return n; }
  std::string ty(QualType T) { if (T.isNull()) return ""; return T.getCanonicalType().getAsString(PP); }
  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L); if (L.isInvalid()) return "";
    auto P = SM.getPresumedLoc(L, false); if (P.isInvalid()) return ""; 
    std::string f = P.getFilename();
    llvm::SmallString<256> R; if (!llvm::sys::fs::real_path(f, R)) return std::string(R.str());
    return f;
  }
  int lineOf(SourceLocation L) { L = SM.getExpansionLoc(L); return L.isInvalid()?0:(int)SM.getExpansionLineNumber(L); }
  bool inRoot(const std::string &F) { for (auto &R: Roots) if (llvm::StringRef(F).starts_with(R)) return true; return false; }
  std::string qn(const NamedDecl *D) { std::string s; llvm::raw_string_ostream os(s); D->printQualifiedName(os, PP); return os.str(); }
  std::string key(const FunctionDecl *F) {
    std::string s; llvm::raw_string_ostream os(s);
    F->getNameForDiagnostic(os, PP, true);
    os << "(";
    bool first = true;
    for (auto *P : F->parameters()) { if (!first) os << ","; first = false; os << ty(P->getType().getUnqualifiedType()); }
    os << ")"; 
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->isConst()) os << "const";
    return os.str();
  }
  const Expr *strip(const Expr *E) {
    while (E) {
      if (auto *X = dyn_cast<ParenExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<ExprWithCleanups>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<ConstantExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = X->getReplacement();
      else if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) E = X->getExpr();
      else if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) E = X->getExpr();
      else if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
        auto K = X->getCastKind();
        if (K == CK_PointerToBoolean || K == CK_IntegralToBoolean || K == CK_FloatingToBoolean || K==CK_MemberPointerToBoolean) return E;
        if (K == CK_FloatingToIntegral) return E;
        if (K == CK_IntegralCast && X->getSubExpr()->getType()->isBooleanType() && !X->getType()->isBooleanType()) return E;
        E = X->getSubExpr();
      }
      else break;
    }
    return E;
  }
  Value fnref(const FunctionDecl *F, Object &O) {
    O["fn"] = qn(F); O["key"] = key(F);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["const"] = M->isConst(); O["cls"] = qn(M->getParent()); O["clst"]=ty(Ctx.getRecordType(M->getParent()));
      if (M->isStatic()) O["static"] = true;
    }
    if (F->isNoReturn()) O["noret"] = true;
    Array PT; for (auto *P : F->parameters()) PT.push_back(ty(P->getType())); O["pt"] = std::move(PT);
    return nullptr;
  }
  Value expr(const Expr *E0) {
    const Expr *E = strip(E0);
    if (!E) return nullptr;
    Object O;
    auto line = [&]{ O["l"] = lineOf(E->getBeginLoc()); auto f = fileOf(E->getBeginLoc()); if (f != CurFile) O["f"] = f; };
    if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
      if (X->getCastKind()==CK_FloatingToIntegral) { O["k"]="cast"; O["t"]=ty(X->getType()); O["ck"]="trunc"; O["a"]=expr(X->getSubExpr()); return O; }
      if (X->getCastKind()==CK_IntegralCast) { O["k"]="cast"; O["t"]=ty(X->getType()); O["ck"]="b2i"; O["a"]=expr(X->getSubExpr()); return O; }
      O["k"] = "tobool"; O["a"] = expr(X->getSubExpr()); O["st"] = ty(X->getSubExpr()->getType()); return O; }
    if (auto *X = dyn_cast<IntegerLiteral>(E)) { O["k"]="lit"; O["v"]=(int64_t)X->getValue().getLimitedValue(); O["t"]=ty(X->getType()); return O; }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) { O["k"]="lit"; O["v"]=X->getValueAsApproximateDouble(); O["t"]="double"; return O; }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { O["k"]="lit"; O["v"]=X->getValue(); O["t"]="bool"; return O; }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) { O["k"]="lit"; O["v"]=(int64_t)X->getValue(); O["t"]="char"; return O; }
    if (auto *X = dyn_cast<StringLiteral>(E)) { O["k"]="lit"; O["v"]=X->isOrdinary()||X->isUTF8()? llvm::json::fixUTF8(X->getString()) : std::string("?"); O["t"]="str"; return O; }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { O["k"]="null"; return O; }
    if (isa<CXXThisExpr>(E)) { O["k"]="this"; O["t"]=ty(E->getType()); return O; }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) { O["k"]="zero"; O["t"]=ty(E->getType()); return O; }
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      auto *D = X->getDecl(); O["k"]="ref"; O["n"]=D->getNameAsString(); O["id"]=id(D); O["t"]=ty(D->getType());
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { O["d"]="enum"; O["q"]=qn(D); O["v"]=(int64_t)EC->getInitVal().getExtValue(); }
      else if (isa<ParmVarDecl>(D)) O["d"]="param";
      else if (auto *V = dyn_cast<VarDecl>(D)) {
        if (V->hasGlobalStorage() && !V->isStaticLocal()) { O["d"]="global"; O["q"]=qn(D);
          if (V->getType().isConstQualified()) if (const Expr *I = V->getAnyInitializer()) if (!I->isValueDependent()) {
            const Expr *SI = strip(I);
            if (SI && (isa<IntegerLiteral>(SI)||isa<FloatingLiteral>(SI)||isa<CXXBoolLiteralExpr>(SI))) O["init"]=expr(SI); } }
        else { O["d"]="local"; if (V->isStaticLocal()) O["static"]=true; }
      }
      else if (auto *F = dyn_cast<FunctionDecl>(D)) { O["d"]="func"; fnref(F,O); }
      else if (isa<BindingDecl>(D)) O["d"]="local";
      else O["d"]="other";
      return O;
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      auto *D = X->getMemberDecl();
      if (auto *V = dyn_cast<VarDecl>(D)) { O["k"]="ref"; O["d"]="global"; O["n"]=D->getNameAsString(); O["q"]=qn(D); O["id"]=id(D); O["t"]=ty(D->getType());
          if (const Expr *I = V->getAnyInitializer()) { const Expr *SI = strip(I); if (SI && (isa<IntegerLiteral>(SI)||isa<FloatingLiteral>(SI)||isa<CXXBoolLiteralExpr>(SI))) O["init"]=expr(SI);} return O; }
      O["k"]="mem"; O["b"]=expr(X->getBase()); O["n"]=D->getNameAsString(); O["arrow"]=X->isArrow(); O["t"]=ty(D->getType()); O["q"]=qn(D);
      line(); return O;
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) { O["k"]="idx"; O["a"]=expr(X->getBase()); O["b"]=expr(X->getIdx()); O["t"]=ty(X->getType()); line(); return O; }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      O["k"]="call"; O["op"]=getOperatorSpelling(X->getOperator()); line(); O["t"]=ty(X->getType());
      if (auto *F = X->getDirectCallee()) {
        fnref(F,O);
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
          O["o"]=expr(X->getArg(0)); O["ot"]=ty(X->getArg(0)->getType()); Array A; for (unsigned i=1;i<X->getNumArgs();++i) A.push_back(expr(X->getArg(i))); O["a"]=std::move(A);
          (void)M; return O; }
      }
      Array A; for (auto *a : X->arguments()) A.push_back(expr(a)); O["a"]=std::move(A); return O;
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      O["k"]="call"; line(); O["t"]=ty(X->getType());
      if (auto *M = X->getMethodDecl()) {
        fnref(M,O);
        if (auto *ME = dyn_cast<MemberExpr>(strip(X->getCallee()))) {
          O["arrow"]=ME->isArrow();
          if (M->isVirtual() && !ME->hasQualifier()) O["virt"]=true;
        }
        O["o"]=expr(X->getImplicitObjectArgument()); O["ot"]=ty(X->getImplicitObjectArgument()->getType());
        O["pure"]=M->isPureVirtual();
      } else O["callee"]=expr(X->getCallee());
      Array A; for (auto *a : X->arguments()) A.push_back(expr(a)); O["a"]=std::move(A); return O;
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      O["k"]="call"; line(); O["t"]=ty(X->getType());
      if (auto *F = X->getDirectCallee()) fnref(F,O); else O["callee"]=expr(X->getCallee());
      Array A; for (auto *a : X->arguments()) A.push_back(expr(a)); O["a"]=std::move(A); return O;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      auto *C = X->getConstructor();
      if ((C->isCopyOrMoveConstructor()) && X->getNumArgs()>=1) { O["k"]="copy"; O["a"]=expr(X->getArg(0)); O["move"]=C->isMoveConstructor(); O["t"]=ty(X->getType()); return O; }
      O["k"]="ctor"; O["t"]=ty(X->getType()); O["key"]=key(C); O["fn"]=qn(C); O["cls"]=qn(C->getParent()); line();
      Array PT; for (auto *P : C->parameters()) PT.push_back(ty(P->getType())); O["pt"] = std::move(PT);
      Array A; for (auto *a : X->arguments()) A.push_back(expr(a)); O["a"]=std::move(A);
      if (X->isListInitialization()) O["list"]=true;
      return O;
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) { O["k"]="ctor"; O["t"]=ty(X->getType()); O["fn"]=qn(X->getConstructor()); O["a"]=Array{}; return O; }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) { O["k"]="new"; O["t"]=ty(X->getAllocatedType()); line(); if (X->getInitializer()) O["i"]=expr(X->getInitializer()); if (X->isArray()) O["array"]=true; return O; }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { O["k"]="delete"; O["a"]=expr(X->getArgument()); line(); return O; }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      line();
      if (X->isAssignmentOp()) { O["k"]="asg"; O["op"]=X->getOpcodeStr().str(); }
      else { O["k"]="bin"; O["op"]=X->getOpcodeStr().str(); }
      O["a"]=expr(X->getLHS()); O["b"]=expr(X->getRHS()); O["t"]=ty(X->getType()); O["at"]=ty(X->getLHS()->getType()); return O;
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) { O["k"]="un"; std::string op = UnaryOperator::getOpcodeStr(X->getOpcode()).str(); if (X->isPostfix()) op = "p"+op; O["op"]=op; O["a"]=expr(X->getSubExpr()); O["t"]=ty(X->getType()); line(); return O; }
    if (auto *X = dyn_cast<ConditionalOperator>(E)) { O["k"]="cond"; O["c"]=expr(X->getCond()); O["a"]=expr(X->getTrueExpr()); O["b"]=expr(X->getFalseExpr()); line(); O["t"]=ty(X->getType()); return O; }
    if (auto *X = dyn_cast<CXXDynamicCastExpr>(E)) { O["k"]="cast"; O["dyn"]=true; O["t"]=ty(X->getType()); O["a"]=expr(X->getSubExpr()); line(); return O; }
    if (auto *X = dyn_cast<ExplicitCastExpr>(E)) {
      if (X->getCastKind()==CK_ConstructorConversion || X->getCastKind()==CK_UserDefinedConversion) return expr(X->getSubExpr());
      if (X->getCastKind()==CK_PointerToBoolean||X->getCastKind()==CK_IntegralToBoolean||X->getCastKind()==CK_FloatingToBoolean) { O["k"]="tobool"; O["a"]=expr(X->getSubExpr()); O["st"]=ty(X->getSubExpr()->getType()); return O; }
      O["k"]="cast"; O["t"]=ty(X->getType()); O["a"]=expr(X->getSubExpr()); if (X->getCastKind()==CK_FloatingToIntegral) O["ck"]="trunc"; if (X->getCastKind()==CK_ToVoid) O["ck"]="void"; return O; }
    if (auto *X = dyn_cast<InitListExpr>(E)) { O["k"]="init"; O["t"]=ty(X->getType()); Array A; for (auto *a : X->inits()) A.push_back(expr(a)); O["a"]=std::move(A); 
      if (auto *RD = X->getType()->getAsCXXRecordDecl()) { Array F; for (auto *Fd : RD->fields()) F.push_back(Fd->getNameAsString()); O["fields"]=std::move(F); } return O; }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      O["k"]="lambda"; line(); Array P; for (auto *p : X->getCallOperator()->parameters()) P.push_back(param(p)); O["params"]=std::move(P);
      O["body"]=stmt(X->getBody()); Array C; for (auto &c : X->captures()) if (c.capturesVariable()) { Object o; o["id"]=id(c.getCapturedVar()); o["n"]=c.getCapturedVar()->getNameAsString(); o["ref"]=c.getCaptureKind()==LCK_ByRef; C.push_back(std::move(o)); }
      O["caps"]=std::move(C); O["key"]=key(X->getCallOperator());
      return O; }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) { O["k"]="throw"; line(); if (X->getSubExpr()) { O["a"]=expr(X->getSubExpr()); O["t"]=ty(X->getSubExpr()->getType()); } return O; }
    if (auto *X = dyn_cast<CXXTypeidExpr>(E)) { O["k"]="typeid"; O["t"]= X->isTypeOperand()? ty(X->getTypeOperand(Ctx)) : ty(X->getExprOperand()->getType()); if (!X->isTypeOperand()) O["a"]=expr(X->getExprOperand()); return O; }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) { O["k"]="lit"; Expr::EvalResult R; if (X->EvaluateAsInt(R,Ctx)) O["v"]=(int64_t)R.Val.getInt().getExtValue(); O["t"]="unsigned long"; return O; }
    if (auto *X = dyn_cast<PredefinedExpr>(E)) { O["k"]="lit"; O["v"]="__func__"; O["t"]="str"; return O; }
    if (auto *X = dyn_cast<TypeTraitExpr>(E)) { O["k"]="lit"; O["v"]=X->getValue(); O["t"]="bool"; return O; }
    O["k"]="opaque"; O["cls"]=E->getStmtClassName(); line(); Array A; for (auto *c : E->children()) if (auto *ce = dyn_cast_or_null<Expr>(c)) A.push_back(expr(ce)); O["a"]=std::move(A);
    return O;
  }
  Object param(const ParmVarDecl *P) { Object o; o["n"]=P->getNameAsString(); o["id"]=id(P); o["t"]=ty(P->getType()); o["ref"]=P->getType()->isReferenceType(); return o; }
  Value vardecl(const VarDecl *V) {
    Object o; o["n"]=V->getNameAsString(); o["id"]=id(V); o["t"]=ty(V->getType()); o["ref"]=V->getType()->isReferenceType(); o["l"]=lineOf(V->getLocation());
    if (V->isStaticLocal()) o["static"]=true;
    if (V->getInit()) { o["i"]=expr(V->getInit()); }
    if (auto *D = dyn_cast<DecompositionDecl>(V)) { Array B; for (auto *b : D->bindings()) { Object bo; bo["n"]=b->getNameAsString(); bo["id"]=id(b); if (auto *HV=b->getHoldingVar()) bo["i"]=expr(HV->getInit()); else if (b->getBinding()) bo["i"]=expr(b->getBinding()); B.push_back(std::move(bo)); } o["bind"]=std::move(B); }
    return o;
  }
  Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *L = dyn_cast<LabelStmt>(S)) return stmt(L->getSubStmt());
    if (auto *L = dyn_cast<AttributedStmt>(S)) return stmt(L->getSubStmt());
    Object O; 
    auto line = [&]{ O["l"] = lineOf(S->getBeginLoc()); auto f = fileOf(S->getBeginLoc()); if (f != CurFile) O["f"] = f; };
    if (auto *X = dyn_cast<CompoundStmt>(S)) { O["k"]="block"; Array A; for (auto *c : X->body()) A.push_back(stmt(c)); O["b"]=std::move(A); return O; }
    if (auto *X = dyn_cast<IfStmt>(S)) { O["k"]="if"; line(); if (X->getInit()) O["init"]=stmt(X->getInit()); if (X->getConditionVariable()) O["var"]=vardecl(X->getConditionVariable()); O["c"]=expr(X->getCond()); 
      if (X->isConstexpr()) O["constexpr"]=true; O["t"]=stmt(X->getThen()); if (X->getElse()) O["e"]=stmt(X->getElse()); return O; }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) { O["k"]="rangefor"; line(); if (X->getInit()) O["init"]=stmt(X->getInit()); O["var"]=vardecl(X->getLoopVariable()); O["range"]=expr(X->getRangeInit()); O["rt"]=ty(X->getRangeInit()->getType()); O["body"]=stmt(X->getBody()); return O; }
    if (auto *X = dyn_cast<ForStmt>(S)) { O["k"]="for"; line(); if (X->getInit()) O["init"]=stmt(X->getInit()); if (X->getCond()) O["c"]=expr(X->getCond()); if (X->getInc()) O["inc"]=expr(X->getInc()); O["body"]=stmt(X->getBody()); return O; }
    if (auto *X = dyn_cast<WhileStmt>(S)) { O["k"]="while"; line(); if (X->getConditionVariable()) O["var"]=vardecl(X->getConditionVariable()); O["c"]=expr(X->getCond()); O["body"]=stmt(X->getBody()); return O; }
    if (auto *X = dyn_cast<DoStmt>(S)) { O["k"]="do"; line(); O["c"]=expr(X->getCond()); O["body"]=stmt(X->getBody()); return O; }
    if (auto *X = dyn_cast<ReturnStmt>(S)) { O["k"]="return"; line(); if (X->getRetValue()) O["e"]=expr(X->getRetValue()); return O; }
    if (isa<BreakStmt>(S)) { O["k"]="break"; line(); return O; }
    if (isa<ContinueStmt>(S)) { O["k"]="continue"; line(); return O; }
    if (isa<NullStmt>(S)) { O["k"]="null"; return O; }
    if (auto *X = dyn_cast<DeclStmt>(S)) { O["k"]="decl"; line(); Array A; for (auto *d : X->decls()) if (auto *V = dyn_cast<VarDecl>(d)) A.push_back(vardecl(V)); O["v"]=std::move(A); return O; }
    if (auto *X = dyn_cast<CXXTryStmt>(S)) { O["k"]="try"; line(); O["body"]=stmt(X->getTryBlock()); Array A; for (unsigned i=0;i<X->getNumHandlers();++i) { auto *H=X->getHandler(i); Object o; o["t"]=H->getExceptionDecl()? ty(H->getCaughtType().getNonReferenceType().getUnqualifiedType()) : std::string("..."); if (H->getExceptionDecl()) o["var"]=vardecl(H->getExceptionDecl()); o["body"]=stmt(H->getHandlerBlock()); A.push_back(std::move(o)); } O["h"]=std::move(A); return O; }
    if (auto *X = dyn_cast<SwitchStmt>(S)) { O["k"]="switch"; line(); if (X->getInit()) O["init"]=stmt(X->getInit()); O["c"]=expr(X->getCond()); O["body"]=stmt(X->getBody()); return O; }
    if (auto *X = dyn_cast<CaseStmt>(S)) { O["k"]="case"; line(); O["e"]=expr(X->getLHS()); O["s"]=stmt(X->getSubStmt()); return O; }
    if (auto *X = dyn_cast<DefaultStmt>(S)) { O["k"]="default"; line(); O["s"]=stmt(X->getSubStmt()); return O; }
    if (auto *X = dyn_cast<Expr>(S)) { O["k"]="expr"; line(); O["e"]=expr(X); return O; }
    O["k"]="opaque"; O["cls"]=S->getStmtClassName(); line(); return O;
  }
  Value func(const FunctionDecl *F) {
    Object O; CurFile = fileOf(F->getLocation());
    O["key"]=key(F); O["name"]=qn(F); O["file"]=CurFile; O["line"]=lineOf(F->getLocation()); O["ret"]=ty(F->getReturnType());
    Array P; for (auto *p : F->parameters()) { Object po = param(p); if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) po["def"]=expr(p->getDefaultArg()); else if (p->hasUninstantiatedDefaultArg() && !p->getUninstantiatedDefaultArg()->isInstantiationDependent()) po["def"]=expr(p->getUninstantiatedDefaultArg()); P.push_back(std::move(po)); } O["params"]=std::move(P);
    O["endline"]=lineOf(F->getEndLoc());
    O["inline"]=F->isInlined(); O["tmpl"]=F->isTemplateInstantiation();
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"]=qn(M->getParent()); O["clst"]=ty(Ctx.getRecordType(M->getParent())); O["virt"]=M->isVirtual(); O["const"]=M->isConst(); O["static"]=M->isStatic();
      O["acc"]= M->getAccess()==AS_public?"public":M->getAccess()==AS_protected?"protected":"private";
      if (M->getParent()->isLocalClass()) O["local"]=true; 
      Array Ov; for (auto *o : M->overridden_methods()) Ov.push_back(key(o)); O["over"]=std::move(Ov);
      if (auto *C = dyn_cast<CXXConstructorDecl>(M)) {
        O["ctor"]=true; Array I;
        for (auto *Init : C->inits()) { Object o; if (Init->isAnyMemberInitializer()) o["field"]=Init->getAnyMember()->getNameAsString(); else if (Init->isBaseInitializer()) o["base"]=ty(QualType(Init->getBaseClass(),0)); else o["deleg"]=true; o["e"]=expr(Init->getInit()); o["written"]=Init->isWritten(); I.push_back(std::move(o)); }
        O["inits"]=std::move(I);
      }
      if (isa<CXXDestructorDecl>(M)) O["dtor"]=true;
    }
    if (F->doesThisDeclarationHaveABody()) O["body"]=stmt(F->getBody());
    return O;
  }
  Value record(const CXXRecordDecl *R) {
    Object O; O["name"]=qn(R); O["type"]=ty(Ctx.getRecordType(R)); O["file"]=fileOf(R->getLocation()); O["line"]=lineOf(R->getLocation());
    CurFile = fileOf(R->getLocation());
    Array B; for (auto &b : R->bases()) B.push_back(ty(b.getType())); O["bases"]=std::move(B);
    Array F; for (auto *f : R->fields()) { Object o; o["n"]=f->getNameAsString(); o["t"]=ty(f->getType()); o["line"]=lineOf(f->getLocation()); o["acc"]=f->getAccess()==AS_public?"public":f->getAccess()==AS_protected?"protected":"private"; if (f->hasInClassInitializer() && f->getInClassInitializer()) o["i"]=expr(f->getInClassInitializer()); F.push_back(std::move(o)); } O["fields"]=std::move(F);
    Array M; for (auto *m : R->methods()) { if (m->isImplicit()) continue; Object o; o["key"]=key(m); o["name"]=m->getNameAsString(); o["virt"]=m->isVirtual(); o["pure"]=m->isPureVirtual(); o["const"]=m->isConst(); o["static"]=m->isStatic(); o["acc"]=m->getAccess()==AS_public?"public":m->getAccess()==AS_protected?"protected":"private"; Array Ov; for (auto *x : m->overridden_methods()) Ov.push_back(key(x)); o["over"]=std::move(Ov); o["line"]=lineOf(m->getLocation()); M.push_back(std::move(o)); } O["methods"]=std::move(M);
    if (R->isInStdNamespace()) O["std"]=true;
    return O;
  }
};

struct V : RecursiveASTVisitor<V> {
  Exporter &X; Array &Fns, &Recs; Object &Bases; std::set<const Decl*> Seen; Array &Tmpls; Array &Globals;
  V(Exporter &x, Array &f, Array &r, Object &b, Array &t, Array &g) : X(x), Fns(f), Recs(r), Bases(b), Tmpls(t), Globals(g) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody()) return true;
    if (!X.inRoot(X.fileOf(F->getLocation()))) return true;
    if (F->isDependentContext()) { Object o; o["name"]=X.qn(F); o["file"]=X.fileOf(F->getLocation()); o["line"]=X.lineOf(F->getLocation()); Tmpls.push_back(std::move(o)); return true; }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
    if (F->isImplicit() && !isa<CXXConstructorDecl>(F)) return true;
    if (!Seen.insert(F).second) return true;
    Fns.push_back(X.func(F)); return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->hasDefinition() || R->getDefinition()!=R) return true;
    if (R->isLambda() || R->isDependentContext()) return true;
    std::string f = X.fileOf(R->getLocation());
    if (f.empty()) return true;
    // class hierarchy of everything polymorphic enough to be thrown/caught
    if (R->getNumBases()) { Array B; for (auto &b : R->bases()) B.push_back(X.ty(b.getType())); Bases[X.ty(X.Ctx.getRecordType(R))]=std::move(B); }
    bool stub = f.find("/stubs/")!=std::string::npos || f.find("/msgs/")!=std::string::npos;
    if (!X.inRoot(f) && !stub) return true;
    if (!Seen.insert(R).second) return true;
    Recs.push_back(X.record(R)); return true;
  }
  bool VisitVarDecl(VarDecl *D) {
    if (D->isLocalVarDeclOrParm() || !D->hasGlobalStorage() || D->getDeclContext()->isDependentContext()) return true;
    std::string f = X.fileOf(D->getLocation()); if (!X.inRoot(f)) return true;
    if (!Seen.insert(D).second) return true;
    Object o; o["name"]=X.qn(D); o["t"]=X.ty(D->getType()); o["file"]=f; o["line"]=X.lineOf(D->getLocation()); X.CurFile=f; if (D->hasInit() && !D->getInit()->isValueDependent()) o["i"]=X.expr(D->getInit()); Globals.push_back(std::move(o)); return true;
  }
};
struct C : ASTConsumer {
  CompilerInstance &CI; C(CompilerInstance &c):CI(c){}
  void HandleTranslationUnit(ASTContext &Ctx) override {
    Exporter X(Ctx); Array F, R, T, G; Object B; V v(X, F, R, B, T, G); v.TraverseDecl(Ctx.getTranslationUnitDecl());
    Object O; O["functions"]=std::move(F); O["records"]=std::move(R); O["bases"]=std::move(B); O["templates"]=std::move(T); O["globals"]=std::move(G);
    O["errors"]=(int64_t)CI.getDiagnostics().getClient()->getNumErrors();
    std::error_code EC; llvm::raw_fd_ostream os(Out, EC); os << Value(std::move(O)) << "\n";
  }
};
struct A : PluginASTAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef) override { return std::make_unique<C>(CI); }
  bool ParseArgs(const CompilerInstance &, const std::vector<std::string> &as) override {
    for (auto &a : as) { if (a.rfind("root=",0)==0) Roots.push_back(a.substr(5)); if (a.rfind("out=",0)==0) Out = a.substr(4); } return true; }
};
static FrontendPluginRegistry::Add<A> Reg("astx", "export repository functions");
