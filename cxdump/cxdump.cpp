// cxdump: exports the resolved (type-checked, template-instantiated) program as JSON.
//
// For every entry function (a function whose name starts with "vp_entry") and everything it can
// reach through calls, constructors, initialisers and overriders, the full body is written when the
// definition lies in user code (one of the --user prefixes); library functions are referenced by
// their qualified name only.  With --all every user function definition of the unit is exported.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <set>
using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::vector<std::string> UserPrefixes;
static std::string OutFile;
static bool ExportAll = false;

namespace {
struct Dumper {
  ASTContext &Ctx;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl *, int> Ids;
  std::map<const void*, int> TypeIds;
  Array Types;
  std::deque<const FunctionDecl *> Work;
  std::set<const FunctionDecl *> Queued;
  std::set<const CXXRecordDecl *> Records;
  std::deque<const CXXRecordDecl *> RecWork;
  std::map<const VarDecl *, bool> Globals;
  std::deque<const VarDecl *> VarWork;
  std::vector<const CXXRecordDecl *> AllUserRecords;
  std::set<std::string> Files;
  Dumper(ASTContext &C) : Ctx(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.Bool = true; PP.SuppressInlineNamespace = true;
  }
  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = Ids.find(D);
    if (it != Ids.end()) return it->second;
    int n = (int)Ids.size() + 1;
    Ids[D] = n;
    return n;
  }
  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(L);
    if (P.isInvalid()) return "";
    return P.getFilename();
  }
  std::string loc(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(L);
    if (P.isInvalid()) return "";
    return std::string(P.getFilename()) + ":" + std::to_string(P.getLine());
  }
  bool isUser(SourceLocation L) {
    std::string f = file(L);
    for (auto &p : UserPrefixes) if (p[0] == '*' ? f.find(p.substr(1)) != std::string::npos : f.compare(0, p.size(), p) == 0) return true;
    return false;
  }
  // qualified name without template arguments and inline namespaces
  std::string qname(const NamedDecl *D) {
    std::string n;
    if (auto *F = dyn_cast<FunctionDecl>(D)) n = F->getNameInfo().getName().getAsString();
    else n = D->getNameAsString();
    if (auto *C = dyn_cast<CXXConstructorDecl>(D)) n = C->getParent()->getNameAsString();
    if (auto *C = dyn_cast<CXXDestructorDecl>(D)) n = "~" + C->getParent()->getNameAsString();
    if (isa<CXXConversionDecl>(D)) n = "operator conv";
    const DeclContext *DC = D->getDeclContext();
    while (DC && !DC->isTranslationUnit()) {
      if (auto *NS = dyn_cast<NamespaceDecl>(DC)) {
        if (!NS->isInline() && !NS->isAnonymousNamespace()) n = NS->getNameAsString() + "::" + n;
      } else if (auto *R = dyn_cast<RecordDecl>(DC)) {
        n = R->getNameAsString() + "::" + n;
      } else if (auto *F = dyn_cast<FunctionDecl>(DC)) {
        n = F->getNameAsString() + "()::" + n;
      }
      DC = DC->getParent();
    }
    return n;
  }
  Value targ(const TemplateArgument &A) {
    switch (A.getKind()) {
    case TemplateArgument::Type: return Value(Object{{"t", type(A.getAsType())}});
    case TemplateArgument::Integral: return Value(Object{{"i", llvm::toString(A.getAsIntegral(), 10)}});
    case TemplateArgument::Pack: {
      Array X; for (auto &B : A.pack_elements()) X.push_back(targ(B)); return Value(Object{{"p", std::move(X)}});
    }
    default: return Value(Object{{"o", 1}});
    }
  }
  int type(QualType Q) {
    if (Q.isNull()) return -1;
    QualType C = Q.getCanonicalType();
    std::string key = C.getAsString(PP);
    auto it = TypeIds.find(C.getAsOpaquePtr());
    if (it != TypeIds.end()) return it->second;
    int n = (int)Types.size();
    TypeIds[C.getAsOpaquePtr()] = n;
    Types.push_back(nullptr);
    Object O{{"s", key}};
    if (C.isConstQualified()) O["const"] = true;
    QualType U = C.getUnqualifiedType();
    if (U->isReferenceType()) { O["k"] = "ref"; O["e"] = type(U->getPointeeType()); if (U->isRValueReferenceType()) O["rv"] = true; }
    else if (U->isPointerType()) { O["k"] = "ptr"; O["e"] = type(U->getPointeeType()); }
    else if (U->isBooleanType()) { O["k"] = "bool"; }
    else if (auto *E = U->getAs<EnumType>()) { O["k"] = "enum"; O["n"] = qname(E->getDecl()); O["bits"] = (int64_t)Ctx.getTypeSize(U); O["signed"] = U->isSignedIntegerOrEnumerationType(); }
    else if (U->isIntegralType(Ctx)) { O["k"] = "int"; O["bits"] = (int64_t)Ctx.getTypeSize(U); O["signed"] = U->isSignedIntegerType(); }
    else if (U->isRealFloatingType()) { O["k"] = "float"; O["bits"] = (int64_t)Ctx.getTypeSize(U); }
    else if (U->isVoidType()) O["k"] = "void";
    else if (U->isArrayType()) {
      O["k"] = "array"; O["e"] = type(QualType(U->getArrayElementTypeNoTypeQual(), 0));
      if (auto *A = Ctx.getAsConstantArrayType(U)) O["n"] = (int64_t)A->getSize().getZExtValue();
    }
    else if (auto *R = U->getAsCXXRecordDecl()) {
      O["k"] = "rec"; O["n"] = qname(R); O["rid"] = id(R);
      if (R->isLambda()) O["lambda"] = true;
      if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
        Array A;
        for (auto &T : S->getTemplateArgs().asArray()) A.push_back(targ(T));
        O["a"] = std::move(A);
      }
      if (R->hasDefinition()) {
        const CXXRecordDecl *D = R->getDefinition();
        // library base classes matter for dispatch (e.g. user type deriving from a library type)
        if (isUser(D->getLocation()) || D->isLambda()) addRecord(D);
      }
    }
    else if (U->isFunctionType()) O["k"] = "fn";
    else if (U->isNullPtrType()) O["k"] = "nullptr";
    else O["k"] = "other";
    Types[n] = std::move(O);
    return n;
  }
  void addRecord(const CXXRecordDecl *R) {
    R = R->getDefinition();
    if (!R || !Records.insert(R).second) return;
    RecWork.push_back(R);
    for (auto &B : R->bases()) if (auto *BR = B.getType()->getAsCXXRecordDecl()) if (BR->hasDefinition() && isUser(BR->getDefinition()->getLocation())) addRecord(BR->getDefinition());
  }
  void queue(const FunctionDecl *F) {
    const FunctionDecl *Def = nullptr;
    if (F->isDeleted()) return;
    if (!F->hasBody(Def)) Def = nullptr;
    if (!Def) {
      // pure virtual etc: consider overriders
      if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->isVirtual()) queueOverriders(M);
      // defaulted special members of user classes have no body until needed
      return;
    }
    if (!isUser(Def->getLocation()) && !(isa<CXXMethodDecl>(Def) && cast<CXXMethodDecl>(Def)->getParent()->isLambda())) { throughLibrary(Def); return; }
    if (!Queued.insert(Def->getCanonicalDecl()).second) return;
    Work.push_back(Def);
    if (auto *M = dyn_cast<CXXMethodDecl>(Def)) if (M->isVirtual()) queueOverriders(M);
  }
  // user functions reached through the bodies of library templates (constructors run by emplace,
  // functors called by algorithms)
  std::set<const FunctionDecl *> LibSeen;
  struct LibVisitor : RecursiveASTVisitor<LibVisitor> {
    Dumper &D;
    std::vector<const FunctionDecl *> Next;
    LibVisitor(Dumper &d) : D(d) {}
    bool shouldVisitImplicitCode() const { return true; }
    bool shouldVisitTemplateInstantiations() const { return false; }
    bool VisitDeclRefExpr(DeclRefExpr *E) { if (auto *F = dyn_cast<FunctionDecl>(E->getDecl())) Next.push_back(F); return true; }
    bool VisitMemberExpr(MemberExpr *E) { if (auto *F = dyn_cast<FunctionDecl>(E->getMemberDecl())) Next.push_back(F); return true; }
    bool VisitCXXConstructExpr(CXXConstructExpr *E) { Next.push_back(E->getConstructor()); return true; }
  };
  void throughLibrary(const FunctionDecl *Def) {
    std::string q = qname(Def);
    if (q.compare(0, 7, "Eigen::") == 0) return;
    std::deque<const FunctionDecl *> todo{Def};
    while (!todo.empty()) {
      const FunctionDecl *F = todo.front(); todo.pop_front();
      const FunctionDecl *B = nullptr;
      if (F->isDeleted() || !F->hasBody(B) || !B) continue;
      if (isUser(B->getLocation()) || (isa<CXXMethodDecl>(B) && cast<CXXMethodDecl>(B)->getParent()->isLambda())) { queue(B); continue; }
      if (!LibSeen.insert(B->getCanonicalDecl()).second) continue;
      if (B->isDependentContext()) continue;
      std::string n = qname(B);
      if (n.compare(0, 7, "Eigen::") == 0) continue;
      LibVisitor V(*this);
      if (auto *C = dyn_cast<CXXConstructorDecl>(B)) for (auto *I : C->inits()) if (I->getInit()) V.TraverseStmt(I->getInit());
      V.TraverseStmt(B->getBody());
      for (auto *X : V.Next) todo.push_back(X);
    }
  }
  bool overrides(const CXXMethodDecl *M, const CXXMethodDecl *B) {
    for (auto *O : M->overridden_methods()) {
      if (O->getCanonicalDecl() == B->getCanonicalDecl() || overrides(O, B)) return true;
    }
    return false;
  }
  void queueOverriders(const CXXMethodDecl *B) {
    for (auto *R : AllUserRecords)
      for (auto *M : R->methods())
        if (M->isVirtual() && overrides(M, B)) { if (M->hasBody()) queue(M); }
  }
  Object callee(const FunctionDecl *F) {
    Object O;
    O["id"] = id(F);
    O["q"] = qname(F);
    const FunctionDecl *Def = nullptr;
    bool has = F->hasBody(Def);
    if (has && (isUser(Def->getLocation()) || (isa<CXXMethodDecl>(Def) && cast<CXXMethodDecl>(Def)->getParent()->isLambda()))) O["user"] = true;
    if (F->isNoReturn()) O["noreturn"] = true;
    if (F->isVariadic()) O["variadic"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["m"] = true;
      if (M->isStatic()) O["static"] = true;
      if (M->isVirtual()) O["virtual"] = true;
      if (M->isConst()) O["const"] = true;
      O["rec"] = type(Ctx.getRecordType(M->getParent()));
      if (isa<CXXConstructorDecl>(M)) O["ctor"] = true;
      if (M->isDefaulted() || M->isImplicit()) O["defaulted"] = true;
    }
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      Array A; for (auto &T : TA->asArray()) A.push_back(targ(T)); O["a"] = std::move(A);
    }
    Array P; for (auto *p : F->parameters()) P.push_back(type(p->getType()));
    O["p"] = std::move(P);
    O["r"] = type(F->getReturnType());
    O["loc"] = loc(F->getLocation());
    queue(F);
    return O;
  }
  Object varDecl(const VarDecl *V) {
    Object O{{"id", id(V)}, {"n", V->getNameAsString()}, {"t", type(V->getType())}, {"loc", loc(V->getLocation())}};
    if (V->isStaticLocal()) O["static"] = true;
    if (V->getTLSKind() != VarDecl::TLS_None) O["tls"] = true;
    if (V->hasInit() && V->getInit()) O["init"] = expr(V->getInit());
    return O;
  }
  void needGlobal(const VarDecl *V) {
    const VarDecl *D = V->getCanonicalDecl();
    if (Globals.emplace(D, true).second) VarWork.push_back(V);
  }
  Value fieldRef(const ValueDecl *D) {
    return Value(Object{{"id", id(D)}, {"n", D->getNameAsString()}});
  }
  Array args(llvm::ArrayRef<const Expr *> A) { Array X; for (auto *E : A) X.push_back(expr(E)); return X; }
  Value expr(const Expr *E) {
    if (!E) return nullptr;
    Object O = exprObj(E);
    return Value(std::move(O));
  }
  void common(Object &O, const Expr *E) {
    O["t"] = type(E->getType());
    O["vc"] = E->isLValue() ? "l" : E->isXValue() ? "x" : "r";
    O["loc"] = loc(E->getBeginLoc());
  }
  Object exprObj(const Expr *E) {
    // strip syntactic wrappers
    while (true) {
      if (auto *P = dyn_cast<ParenExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<ExprWithCleanups>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = P->getReplacement(); continue; }
      if (auto *P = dyn_cast<ConstantExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) { E = P->getExpr(); continue; }
      if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) { E = P->getExpr(); continue; }
      if (auto *P = dyn_cast<OpaqueValueExpr>(E)) { if (P->getSourceExpr()) { E = P->getSourceExpr(); continue; } }
      if (auto *P = dyn_cast<UnaryOperator>(E)) if (P->getOpcode() == UO_Extension) { E = P->getSubExpr(); continue; }
      break;
    }
    Object O;
    common(O, E);
    QualType T = E->getType();
    if (E->isPRValue() && !E->isValueDependent() && T->isIntegralOrEnumerationType() && !isa<CXXNoexceptExpr>(E)) {
      Expr::EvalResult R;
      if (!hasCall(E) && E->EvaluateAsRValue(R, Ctx) && !R.HasSideEffects && R.Val.isInt()) {
        O["k"] = "int"; O["v"] = llvm::toString(R.Val.getInt(), 10); 
        return O;
      }
    }
    if (auto *L = dyn_cast<FloatingLiteral>(E)) {
      O["k"] = "flt";
      llvm::SmallString<32> S; L->getValue().toString(S, 40, 10);
      std::string txt(Lexer::getSourceText(CharSourceRange::getTokenRange(L->getSourceRange()), SM, Ctx.getLangOpts()));
      O["v"] = std::string(S); O["txt"] = txt;
      return O;
    }
    if (auto *L = dyn_cast<StringLiteral>(E)) { O["k"] = "str"; O["v"] = L->isOrdinary() ? llvm::json::fixUTF8(L->getString()) : std::string("?"); return O; }
    if (isa<PredefinedExpr>(E)) { O["k"] = "str"; O["v"] = "__func__"; return O; }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { O["k"] = "null"; return O; }
    if (isa<CXXThisExpr>(E)) { O["k"] = "this"; return O; }
    if (auto *D = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *V = D->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(V)) { O["k"] = "fnref"; O["f"] = callee(F); return O; }
      if (auto *EC = dyn_cast<EnumConstantDecl>(V)) { O["k"] = "int"; O["v"] = llvm::toString(EC->getInitVal(), 10); return O; }
      if (auto *BD = dyn_cast<BindingDecl>(V)) {
        if (BD->getHoldingVar()) { O["k"] = "var"; O["id"] = id(BD->getHoldingVar()); O["n"] = V->getNameAsString(); return O; }
        if (BD->getBinding()) return exprObj(BD->getBinding());
      }
      O["k"] = "var"; O["id"] = id(V); O["n"] = V->getNameAsString();
      if (auto *VD = dyn_cast<VarDecl>(V)) {
        if (VD->hasGlobalStorage()) {
          O["g"] = true; O["q"] = qname(VD);
          if (VD->isStaticLocal()) O["static"] = true;
          needGlobal(VD);
        }
      }
      return O;
    }
    if (auto *M = dyn_cast<MemberExpr>(E)) {
      if (auto *VD = dyn_cast<VarDecl>(M->getMemberDecl())) { // static data member
        O["k"] = "var"; O["id"] = id(VD); O["n"] = VD->getNameAsString(); O["g"] = true; O["q"] = qname(VD); needGlobal(VD);
        return O;
      }
      if (auto *F = dyn_cast<FunctionDecl>(M->getMemberDecl())) { O["k"] = "memfn"; O["f"] = callee(F); O["b"] = expr(M->getBase()); O["arrow"] = M->isArrow(); return O; }
      if (auto *EC = dyn_cast<EnumConstantDecl>(M->getMemberDecl())) { O["k"] = "int"; O["v"] = llvm::toString(EC->getInitVal(), 10); return O; }
      O["k"] = "mem"; O["f"] = fieldRef(M->getMemberDecl()); O["b"] = expr(M->getBase()); if (M->isArrow()) O["arrow"] = true;
      return O;
    }
    if (auto *C = dyn_cast<CXXOperatorCallExpr>(E)) {
      O["k"] = "opcall"; O["op"] = getOperatorSpelling(C->getOperator());
      if (auto *F = C->getDirectCallee()) O["f"] = callee(F);
      Array A; for (auto *X : C->arguments()) A.push_back(expr(X));
      O["a"] = std::move(A);
      return O;
    }
    if (auto *C = dyn_cast<CXXMemberCallExpr>(E)) {
      O["k"] = "mcall";
      if (auto *F = C->getMethodDecl()) O["f"] = callee(F);
      else if (auto *BO = dyn_cast<BinaryOperator>(C->getCallee()->IgnoreParens())) { // call through a pointer to member function
        O["pm"] = expr(BO->getRHS());
        if (auto *MP = BO->getRHS()->getType()->getAs<MemberPointerType>())
          if (auto *FP = MP->getPointeeType()->getAs<FunctionProtoType>()) if (FP->getMethodQuals().hasConst()) O["pmconst"] = true;
      }
      if (auto *B = C->getImplicitObjectArgument()) {
        O["b"] = expr(B);
        if (B->getType()->isPointerType()) O["arrow"] = true;
        if (auto *ME = dyn_cast<MemberExpr>(C->getCallee()->IgnoreParens())) if (ME->hasQualifier() ) O["qualified"] = true;
      }
      Array A; for (auto *X : C->arguments()) A.push_back(expr(X));
      O["a"] = std::move(A);
      return O;
    }
    if (auto *C = dyn_cast<CallExpr>(E)) {
      O["k"] = "call";
      if (auto *F = C->getDirectCallee()) O["f"] = callee(F); else O["ce"] = expr(C->getCallee());
      Array A; for (auto *X : C->arguments()) A.push_back(expr(X));
      O["a"] = std::move(A);
      return O;
    }
    if (auto *C = dyn_cast<CXXConstructExpr>(E)) {
      O["k"] = "ctor"; O["f"] = callee(C->getConstructor());
      if (C->isListInitialization()) O["list"] = true;
      if (C->isStdInitListInitialization()) O["stdil"] = true;
      if (C->isElidable()) O["elide"] = true;
      if (C->requiresZeroInitialization()) O["zero"] = true;
      Array A; for (auto *X : C->arguments()) A.push_back(expr(X));
      O["a"] = std::move(A);
      return O;
    }
    if (auto *C = dyn_cast<CXXInheritedCtorInitExpr>(E)) { O["k"] = "inhctor"; O["f"] = callee(C->getConstructor()); return O; }
    if (auto *I = dyn_cast<InitListExpr>(E)) {
      const InitListExpr *S = I->isSemanticForm() ? I : I->getSemanticForm() ? I->getSemanticForm() : I;
      O["k"] = "il";
      Array A; for (auto *X : S->inits()) A.push_back(expr(X));
      O["a"] = std::move(A);
      if (S->getArrayFiller()) O["fill"] = expr(S->getArrayFiller());
      return O;
    }
    if (auto *I = dyn_cast<CXXStdInitializerListExpr>(E)) { O["k"] = "stdil"; O["e"] = expr(I->getSubExpr()); return O; }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) { O["k"] = "zero"; return O; }
    if (auto *M = dyn_cast<MaterializeTemporaryExpr>(E)) { O["k"] = "mat"; O["e"] = expr(M->getSubExpr()); return O; }
    if (auto *C = dyn_cast<CastExpr>(E)) {
      O["k"] = "cast"; O["ck"] = C->getCastKindName(); O["e"] = expr(C->getSubExpr());
      if (isa<CXXConstCastExpr>(E)) O["constcast"] = true;
      if (isa<CStyleCastExpr>(E)) O["cstyle"] = true;
      return O;
    }
    if (auto *U = dyn_cast<UnaryOperator>(E)) { O["k"] = "un"; O["op"] = std::string(UnaryOperator::getOpcodeStr(U->getOpcode())); if (U->isPostfix()) O["post"] = true; O["e"] = expr(U->getSubExpr()); return O; }
    if (auto *B = dyn_cast<CompoundAssignOperator>(E)) {
      O["k"] = "cas"; O["op"] = std::string(B->getOpcodeStr()); O["l"] = expr(B->getLHS()); O["r"] = expr(B->getRHS());
      O["ct"] = type(B->getComputationResultType()); return O;
    }
    if (auto *B = dyn_cast<BinaryOperator>(E)) { O["k"] = "bin"; O["op"] = std::string(B->getOpcodeStr()); O["l"] = expr(B->getLHS()); O["r"] = expr(B->getRHS()); return O; }
    if (auto *C = dyn_cast<ConditionalOperator>(E)) { O["k"] = "cond"; O["c"] = expr(C->getCond()); O["l"] = expr(C->getTrueExpr()); O["r"] = expr(C->getFalseExpr()); return O; }
    if (auto *C = dyn_cast<BinaryConditionalOperator>(E)) { O["k"] = "cond"; O["c"] = expr(C->getCond()); O["l"] = expr(C->getCommon()); O["r"] = expr(C->getFalseExpr()); return O; }
    if (auto *S = dyn_cast<ArraySubscriptExpr>(E)) { O["k"] = "sub"; O["b"] = expr(S->getBase()); O["i"] = expr(S->getIdx()); return O; }
    if (auto *L = dyn_cast<LambdaExpr>(E)) {
      O["k"] = "lambda";
      O["rid"] = id(L->getLambdaClass());
      O["f"] = callee(L->getCallOperator());
      if (L->isGenericLambda()) O["generic"] = true;
      Array A;
      auto FI = L->getLambdaClass()->field_begin();
      unsigned i = 0;
      auto inits = L->capture_inits();
      auto ii = inits.begin();
      for (auto &C : L->captures()) {
        Object c;
        if (C.capturesThis()) { c["this"] = true; if (C.getCaptureKind() == LCK_StarThis) c["copy"] = true; }
        else if (C.capturesVariable()) { c["var"] = id(C.getCapturedVar()); c["n"] = C.getCapturedVar()->getNameAsString(); if (C.getCaptureKind() == LCK_ByRef) c["ref"] = true; }
        if (ii != inits.end()) { c["init"] = expr(*ii); ++ii; }
        c["fid"] = id(*FI); c["fn"] = FI->getNameAsString();
        c["t"] = type(FI->getType());
        ++FI; ++i;
        A.push_back(std::move(c));
      }
      O["caps"] = std::move(A);
      return O;
    }
    if (auto *N = dyn_cast<CXXNewExpr>(E)) {
      O["k"] = "new"; O["at"] = type(N->getAllocatedType());
      if (N->isArray()) O["arr"] = N->getArraySize() ? expr(*N->getArraySize()) : Value(nullptr);
      if (N->getInitializer()) O["init"] = expr(N->getInitializer());
      return O;
    }
    if (auto *D = dyn_cast<CXXDeleteExpr>(E)) { O["k"] = "delete"; O["e"] = expr(D->getArgument()); return O; }
    if (auto *T = dyn_cast<CXXThrowExpr>(E)) { O["k"] = "throw"; if (T->getSubExpr()) O["e"] = expr(T->getSubExpr()); return O; }
    if (isa<CXXTypeidExpr>(E)) { O["k"] = "typeid"; return O; }
    if (auto *P = dyn_cast<PackExpansionExpr>(E)) { O["k"] = "unsupported"; O["cls"] = "PackExpansionExpr"; return O; }
    if (auto *A = dyn_cast<ArrayInitLoopExpr>(E)) { O["k"] = "arrcopy"; O["e"] = expr(A->getCommonExpr()->getSourceExpr()); return O; }
    if (isa<CXXPseudoDestructorExpr>(E)) { O["k"] = "unsupported"; O["cls"] = "pseudo-dtor"; return O; }
    O["k"] = "unsupported"; O["cls"] = E->getStmtClassName();
    return O;
  }
  bool hasCall(const Stmt *S) {
    if (!S) return false;
    if (auto *C = dyn_cast<CallExpr>(S)) { (void)C; if (auto *F = C->getDirectCallee()) if (F->isConstexpr() && !isUser(F->getLocation())) goto kids; return true; }
  kids:
    for (auto *C : S->children()) if (C && hasCall(C)) return true;
    return false;
  }
  Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    Object O;
    if (auto *E = dyn_cast<Expr>(S)) { O["k"] = "expr"; O["e"] = expr(E); O["loc"] = loc(S->getBeginLoc()); return Value(std::move(O)); }
    O["loc"] = loc(S->getBeginLoc());
    if (auto *C = dyn_cast<CompoundStmt>(S)) { O["k"] = "block"; Array A; for (auto *X : C->body()) A.push_back(stmt(X)); O["s"] = std::move(A); return Value(std::move(O)); }
    if (auto *D = dyn_cast<DeclStmt>(S)) {
      O["k"] = "decl"; Array A;
      for (auto *X : D->decls()) {
        if (auto *DD = dyn_cast<DecompositionDecl>(X)) {
          Object v = varDecl(DD); Array B;
          for (auto *b : DD->bindings()) if (b->getHoldingVar()) B.push_back(varDecl(b->getHoldingVar()));
          v["hold"] = std::move(B); A.push_back(std::move(v));
        } else if (auto *V = dyn_cast<VarDecl>(X)) { A.push_back(varDecl(V)); }
      }
      O["v"] = std::move(A);
      return Value(std::move(O));
    }
    if (auto *I = dyn_cast<IfStmt>(S)) {
      O["k"] = "if"; if (I->getInit()) O["init"] = stmt(I->getInit());
      if (I->getConditionVariable()) O["cv"] = varDecl(I->getConditionVariable());
      O["c"] = expr(I->getCond());
      if (I->isConstexpr()) { 
        if (auto B = I->getNondiscardedCase(Ctx)) { O["k"] = "block"; Array A; if (*B) A.push_back(stmt(*B)); O["s"] = std::move(A); return Value(std::move(O)); }
      }
      O["th"] = stmt(I->getThen()); if (I->getElse()) O["el"] = stmt(I->getElse());
      return Value(std::move(O));
    }
    if (auto *F = dyn_cast<ForStmt>(S)) {
      O["k"] = "for"; if (F->getInit()) O["init"] = stmt(F->getInit());
      if (F->getConditionVariable()) O["cv"] = varDecl(F->getConditionVariable());
      if (F->getCond()) O["c"] = expr(F->getCond()); if (F->getInc()) O["inc"] = expr(F->getInc()); O["b"] = stmt(F->getBody());
      return Value(std::move(O));
    }
    if (auto *W = dyn_cast<WhileStmt>(S)) {
      O["k"] = "while"; if (W->getConditionVariable()) O["cv"] = varDecl(W->getConditionVariable());
      O["c"] = expr(W->getCond()); O["b"] = stmt(W->getBody()); return Value(std::move(O));
    }
    if (auto *W = dyn_cast<DoStmt>(S)) { O["k"] = "do"; O["c"] = expr(W->getCond()); O["b"] = stmt(W->getBody()); return Value(std::move(O)); }
    if (auto *R = dyn_cast<CXXForRangeStmt>(S)) {
      O["k"] = "frange";
      if (R->getInit()) O["init"] = stmt(R->getInit());
      O["range"] = stmt(R->getRangeStmt()); O["bs"] = stmt(R->getBeginStmt()); O["es"] = stmt(R->getEndStmt());
      O["c"] = expr(R->getCond()); O["inc"] = expr(R->getInc()); O["lv"] = stmt(R->getLoopVarStmt()); O["b"] = stmt(R->getBody());
      return Value(std::move(O));
    }
    if (auto *R = dyn_cast<ReturnStmt>(S)) { O["k"] = "ret"; if (R->getRetValue()) O["e"] = expr(R->getRetValue()); return Value(std::move(O)); }
    if (isa<BreakStmt>(S)) { O["k"] = "break"; return Value(std::move(O)); }
    if (isa<ContinueStmt>(S)) { O["k"] = "continue"; return Value(std::move(O)); }
    if (isa<NullStmt>(S)) { O["k"] = "null"; return Value(std::move(O)); }
    if (auto *W = dyn_cast<SwitchStmt>(S)) { O["k"] = "switch"; if (W->getInit()) O["init"] = stmt(W->getInit()); if (W->getConditionVariable()) O["cv"] = varDecl(W->getConditionVariable()); O["c"] = expr(W->getCond()); O["b"] = stmt(W->getBody()); return Value(std::move(O)); }
    if (auto *C = dyn_cast<CaseStmt>(S)) { O["k"] = "case"; O["v"] = expr(C->getLHS()); if (C->getRHS()) O["v2"] = expr(C->getRHS()); O["b"] = stmt(C->getSubStmt()); return Value(std::move(O)); }
    if (auto *C = dyn_cast<DefaultStmt>(S)) { O["k"] = "default"; O["b"] = stmt(C->getSubStmt()); return Value(std::move(O)); }
    if (auto *A = dyn_cast<AttributedStmt>(S)) return stmt(A->getSubStmt());
    if (auto *L = dyn_cast<LabelStmt>(S)) { O["k"] = "label"; O["b"] = stmt(L->getSubStmt()); return Value(std::move(O)); }
    if (auto *T = dyn_cast<CXXTryStmt>(S)) {
      O["k"] = "try"; O["b"] = stmt(T->getTryBlock()); Array A;
      for (unsigned i = 0; i < T->getNumHandlers(); ++i) { auto *H = T->getHandler(i); Object h; if (H->getExceptionDecl()) { h["v"] = varDecl(H->getExceptionDecl()); } h["b"] = stmt(H->getHandlerBlock()); A.push_back(std::move(h)); }
      O["h"] = std::move(A); return Value(std::move(O));
    }
    O["k"] = "unsupported"; O["cls"] = S->getStmtClassName();
    return Value(std::move(O));
  }
  Object function(const FunctionDecl *F) {
    Object O = callee(F);
    O["loc"] = loc(F->getLocation());
    O["endloc"] = loc(F->getEndLoc());
    O["n"] = F->getNameInfo().getName().getAsString();
    Array P;
    for (auto *p : F->parameters()) P.push_back(Object{{"id", id(p)}, {"n", p->getNameAsString()}, {"t", type(p->getType())}});
    O["params"] = std::move(P);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      Array Ov; for (auto *B : M->overridden_methods()) Ov.push_back(id(B)); O["over"] = std::move(Ov);
      const char *acc = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private";
      O["access"] = acc;
    }
    if (auto *C = dyn_cast<CXXConstructorDecl>(F)) {
      Array I;
      for (auto *X : C->inits()) {
        Object i; i["loc"] = loc(X->getSourceLocation());
        if (X->isAnyMemberInitializer()) i["field"] = fieldRef(X->getAnyMember());
        else if (X->isBaseInitializer()) i["base"] = type(QualType(X->getBaseClass(), 0));
        else if (X->isDelegatingInitializer()) i["deleg"] = true;
        if (X->isWritten()) i["written"] = true;
        i["e"] = expr(X->getInit());
        I.push_back(std::move(i));
      }
      O["inits"] = std::move(I);
    }
    Files.insert(file(F->getLocation()));
    O["body"] = stmt(F->getBody());
    return O;
  }
  Object record(const CXXRecordDecl *R) {
    Object O{{"rid", id(R)}, {"n", qname(R)}, {"t", type(Ctx.getRecordType(R))}, {"loc", loc(R->getLocation())}};
    Array B; for (auto &b : R->bases()) B.push_back(type(b.getType())); O["bases"] = std::move(B);
    Array F;
    for (auto *f : R->fields()) {
      Object x{{"id", id(f)}, {"n", f->getNameAsString()}, {"t", type(f->getType())}, {"loc", loc(f->getLocation())}};
      if (f->isMutable()) x["mutable"] = true;
      if (f->hasInClassInitializer() && f->getInClassInitializer()) x["init"] = expr(f->getInClassInitializer());
      F.push_back(std::move(x));
    }
    O["fields"] = std::move(F);
    Array M;
    for (auto *m : R->methods()) {
      Object x{{"id", id(m)}, {"n", m->getNameInfo().getName().getAsString()}};
      if (m->isVirtual()) x["virtual"] = true;
      if (m->isPureVirtual()) x["pure"] = true;
      if (m->isConst()) x["const"] = true;
      if (m->isStatic()) x["static"] = true;
      if (m->isImplicit()) x["implicit"] = true;
      if (m->isDeleted()) x["deleted"] = true;
      x["access"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private";
      Array Ov; for (auto *b : m->overridden_methods()) Ov.push_back(id(b)); x["over"] = std::move(Ov);
      x["loc"] = loc(m->getLocation());
      M.push_back(std::move(x));
    }
    O["methods"] = std::move(M);
    if (R->isLambda()) O["lambda"] = true;
    return O;
  }
};

static bool definedSomewhere(const FunctionDecl *F) {
  if (F->isDefined() || F->isDefaulted() || F->isDeleted() || F->isPureVirtual() || F->isImplicit()) return true;
  if (auto *P = F->getTemplateInstantiationPattern()) return P->isDefined() || P->isDefaulted() || P->isDeleted();
  return false;
}
struct Collect : RecursiveASTVisitor<Collect> {
  Dumper &D; std::vector<const FunctionDecl *> Entries, All;
  std::map<std::string, Object> Undef;
  const char *access(const Decl *X) { return X->getAccess() == AS_protected ? "protected" : X->getAccess() == AS_private ? "private" : "public"; }
  bool VisitVarDecl(VarDecl *V) {
    if (!V->isStaticDataMember() || V->getDeclContext()->isDependentContext() || !D.isUser(V->getLocation())) return true;
    bool def = V->hasDefinition() != VarDecl::DeclarationOnly || V->isInline();
    if (!def) if (auto *P = V->getTemplateInstantiationPattern()) def = P->hasDefinition() != VarDecl::DeclarationOnly || P->isInline();
    if (!def) { std::string q = D.qname(V), l = D.loc(V->getLocation()); Undef.emplace(q + l, Object{{"q", q}, {"loc", l}, {"access", access(V)}, {"var", true}}); }
    return true;
  }
  Collect(Dumper &d) : D(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (ExportAll && !F->isDependentContext() && D.isUser(F->getLocation()) && F->isFirstDecl() && !definedSomewhere(F)) {
      std::string q = D.qname(F), l = D.loc(F->getLocation());
      Undef.emplace(q + l, Object{{"q", q}, {"loc", l}, {"access", access(F)}});
    }
    if (!F->isThisDeclarationADefinition() || F->isDependentContext() || !F->hasBody()) return true;
    if (!D.isUser(F->getLocation())) return true;
    if (F->getIdentifier() && F->getName().starts_with("vp_entry")) Entries.push_back(F);
    All.push_back(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (R->isThisDeclarationADefinition() && !R->isDependentContext() && D.isUser(R->getLocation())) D.AllUserRecords.push_back(R);
    return true;
  }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Dumper D(C);
    Collect V(D);
    V.TraverseDecl(C.getTranslationUnitDecl());
    Array Entries;
    for (auto *F : V.Entries) { D.queue(F); Entries.push_back(D.id(F)); }
    if (ExportAll) { for (auto *F : V.All) D.queue(F); for (auto *R : D.AllUserRecords) D.addRecord(R); }
    Array Fns, Recs, Vars;
    while (!D.Work.empty() || !D.RecWork.empty() || !D.VarWork.empty()) {
      if (!D.Work.empty()) { auto *F = D.Work.front(); D.Work.pop_front(); Fns.push_back(D.function(F)); continue; }
      if (!D.RecWork.empty()) { auto *R = D.RecWork.front(); D.RecWork.pop_front(); Recs.push_back(D.record(R)); continue; }
      auto *G = D.VarWork.front(); D.VarWork.pop_front();
      const VarDecl *Def = G; const VarDecl *I = nullptr;
      const Expr *Init = G->getAnyInitializer(I);
      Object o = Object{{"id", D.id(Def)}, {"q", D.qname(Def)}, {"t", D.type(Def->getType())}, {"loc", D.loc(Def->getLocation())}};
      if (D.isUser(Def->getLocation()) && Init) o["init"] = D.expr(Init);
      else if (Init && Def->getType()->isIntegralOrEnumerationType() && Def->getType().isConstQualified() ) {
        Expr::EvalResult R; if (!Init->isValueDependent() && Init->EvaluateAsRValue(R, C) && R.Val.isInt()) o["init"] = D.expr(Init);
      }
      if (Def->getType().isConstQualified()) o["const"] = true;
      if (Def->isConstexpr()) o["constexpr"] = true;
      if (Def->isStaticLocal()) o["static"] = true;
      if (Def->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
      if (D.isUser(Def->getLocation())) o["user"] = true;
      Vars.push_back(std::move(o));
    }
    Array Fl; for (auto &f : D.Files) Fl.push_back(f);
    Array Un; for (auto &u : V.Undef) Un.push_back(Value(std::move(u.second)));
    Object Root{{"undefined", std::move(Un)}, {"entries", std::move(Entries)}, {"functions", std::move(Fns)}, {"records", std::move(Recs)}, {"globals", std::move(Vars)}, {"types", std::move(D.Types)}, {"files", std::move(Fl)}};
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutFile, EC);
    OS << Value(std::move(Root)) << "\n";
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override { return std::make_unique<Consumer>(); }
};
}

int main(int argc, const char **argv) {
  // cxdump -o OUT [--all] --user PREFIX ... FILE -- flags
  std::string File; std::vector<std::string> Flags;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "-o") OutFile = argv[++i];
    else if (a == "--user") UserPrefixes.push_back(argv[++i]);
    else if (a == "--all") ExportAll = true;
    else if (a == "--") { for (++i; i < argc; ++i) Flags.push_back(argv[i]); }
    else File = a;
  }
  clang::tooling::FixedCompilationDatabase DB(".", Flags);
  clang::tooling::ClangTool Tool(DB, {File});
  int rc = Tool.run(clang::tooling::newFrontendActionFactory<Action>().get());
  return rc;
}
