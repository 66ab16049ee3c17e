// astx: LibTooling exporter.  Parses one translation unit with the flags of the
// real build and writes the resolved program (every function body, class,
// global and table defined under a given root) as JSON.  It takes no decision.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include <map>
#include <set>
using namespace clang;
using namespace clang::tooling;
namespace J = llvm::json;
static llvm::cl::OptionCategory Cat("astx");
static llvm::cl::opt<std::string> Root("root", llvm::cl::cat(Cat), llvm::cl::Required);
static llvm::cl::opt<std::string> Out("out", llvm::cl::cat(Cat), llvm::cl::Required);

struct X {
  ASTContext &C; SourceManager &SM; PrintingPolicy PP;
  J::Array funcs, recs, globals;
  std::set<std::string> seenF, seenR, seenG;
  std::vector<const FunctionDecl *> pending; std::set<const Decl *> pendSet;
  std::map<const Decl *, int> declIds; int nextId = 1;
  X(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.Bool = true;
  }
  std::string fileOf(SourceLocation L) {
    if (L.isInvalid()) return "";
    L = SM.getExpansionLoc(L);
    StringRef f = SM.getFilename(L);
    if (auto FE = SM.getFileEntryRefForID(SM.getFileID(L))) {
      StringRef rp = FE->getFileEntry().tryGetRealPathName();
      if (!rp.empty()) f = rp;
    }
    return f.str();
  }
  int lineOf(SourceLocation L) { return L.isInvalid() ? 0 : (int)SM.getExpansionLineNumber(L); }
  bool inRoot(const Decl *D) {
    std::string f = fileOf(D->getLocation());
    if (f.rfind(Root, 0) != 0) return false;
    std::string r = f.substr(Root.size());
    return r.rfind("/src/", 0) == 0 || r.rfind("/include/", 0) == 0;
  }
  std::string rel(const std::string &f) { return f.rfind(Root, 0) == 0 ? f.substr(Root.size() + 1) : f; }
  std::string ty(QualType T) { return T.isNull() ? "" : T.getCanonicalType().getUnqualifiedType().getAsString(PP); }
  std::string tyq(QualType T) { return T.isNull() ? "" : T.getCanonicalType().getAsString(PP); }
  int did(const Decl *D) { D = D->getCanonicalDecl(); auto &r = declIds[D]; if (!r) r = nextId++; return r; }
  std::string recName(const CXXRecordDecl *R) {
    if (R->isLambda()) return "lambda@" + rel(fileOf(R->getLocation())) + ":" + std::to_string(lineOf(R->getLocation())) + ":" + std::to_string(SM.getExpansionColumnNumber(R->getLocation()));
    return C.getTypeDeclType(R).getCanonicalType().getAsString(PP);
  }
  std::string fid(const FunctionDecl *F) {
    std::string s;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      s = recName(M->getParent()) + "::";
      if (isa<CXXConstructorDecl>(F)) s += "#ctor";
      else if (isa<CXXDestructorDecl>(F)) s += "#dtor";
      else s += F->getNameAsString();
    } else s = F->getQualifiedNameAsString();
    s += "(";
    for (unsigned i = 0; i < F->getNumParams(); i++) { if (i) s += ","; s += tyq(F->getParamDecl(i)->getType()); }
    s += ")";
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->isConst()) s += "const";
    return s;
  }
  J::Object fref(const FunctionDecl *F) {
    J::Object o; o["id"] = fid(F);
    o["n"] = F->getNameAsString();
    o["q"] = F->getQualifiedNameAsString();
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = recName(M->getParent());
      if (M->isVirtual()) o["virt"] = true;
      if (M->isConst()) o["const"] = true;
      if (M->isStatic()) o["static"] = true;
      if (auto *K = dyn_cast<CXXConstructorDecl>(M)) {
        o["ctor"] = true;
        if (K->isCopyConstructor()) o["copy"] = true;
        if (K->isMoveConstructor()) o["move"] = true;
        if (K->isDefaultConstructor()) o["dflt"] = true;
      }
      if (isa<CXXDestructorDecl>(M)) o["dtor"] = true;
      if (M->isCopyAssignmentOperator()) o["copyasg"] = true;
      if (M->isMoveAssignmentOperator()) o["moveasg"] = true;
      o["user"] = M->isUserProvided();
    }
    if (F->isOverloadedOperator()) o["op"] = getOperatorSpelling(F->getOverloadedOperator());
    const FunctionDecl *D = nullptr;
    bool in = inRoot(F);
    if (!in) if (F->hasBody(D) && inRoot(D)) in = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (!in && inRoot(M->getParent())) in = true;
    o["repo"] = in;
    J::Array ps;
    for (auto *P : F->parameters()) ps.push_back(tyq(P->getType()));
    o["pt"] = std::move(ps);
    o["rt"] = tyq(F->getReturnType());
    if (in) { // make sure implicit members used are exported
      const FunctionDecl *B = nullptr; F->hasBody(B);
      if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->isImplicit() || M->isDefaulted()) addPending(B ? B : F);
      if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) addPending(B ? B : F);
      if (F->isTemplateInstantiation()) addPending(B ? B : F);
    }
    return o;
  }
  void addPending(const FunctionDecl *F) { if (pendSet.insert(F).second) pending.push_back(F); }
  void loc(J::Object &o, const Stmt *S) { o["l"] = lineOf(S->getBeginLoc()); }
  J::Value opt(const Stmt *S) { if (!S) return nullptr; return st(S); }
  J::Object var(const VarDecl *V) {
    J::Object o; o["n"] = V->getNameAsString(); o["t"] = tyq(V->getType());
    if (V->isLocalVarDeclOrParm()) o["id"] = did(V);
    if (V->isStaticLocal()) o["sl"] = true;
    if (V->isStaticDataMember() || V->hasGlobalStorage()) { o["g"] = V->getQualifiedNameAsString(); }
    return o;
  }
  J::Value st(const Stmt *S) {
    J::Object o;
    if (auto *E = dyn_cast<Expr>(S)) return ex(E);
    loc(o, S);
    o["e"] = lineOf(S->getEndLoc());
    if (auto *D = dyn_cast<DeclStmt>(S)) {
      o["k"] = "Decl"; J::Array a;
      for (auto *d : D->decls()) if (auto *V = dyn_cast<VarDecl>(d)) {
        J::Object v = var(V);
        if (V->getInit()) { v["init"] = ex(V->getInit()); v["istyle"] = V->getInitStyle() == VarDecl::CInit ? "c" : "call"; }
        v["l"] = lineOf(V->getLocation());
        a.push_back(std::move(v));
      }
      o["c"] = std::move(a); return o;
    }
    if (auto *I = dyn_cast<IfStmt>(S)) {
      o["k"] = "If"; o["init"] = opt(I->getInit()); o["cv"] = opt(I->getConditionVariableDeclStmt());
      o["cond"] = ex(I->getCond()); o["then"] = st(I->getThen()); o["else"] = opt(I->getElse()); return o;
    }
    if (auto *W = dyn_cast<WhileStmt>(S)) {
      o["k"] = "While"; o["cv"] = opt(W->getConditionVariableDeclStmt()); o["cond"] = ex(W->getCond()); o["body"] = st(W->getBody()); return o;
    }
    if (auto *W = dyn_cast<DoStmt>(S)) { o["k"] = "Do"; o["cond"] = ex(W->getCond()); o["body"] = st(W->getBody()); return o; }
    if (auto *W = dyn_cast<ForStmt>(S)) {
      o["k"] = "For"; o["init"] = opt(W->getInit()); o["cond"] = opt(W->getCond()); o["inc"] = opt(W->getInc()); o["body"] = st(W->getBody()); return o;
    }
    if (auto *W = dyn_cast<CXXForRangeStmt>(S)) {
      o["k"] = "ForRange"; o["var"] = var(W->getLoopVariable()); o["range"] = ex(W->getRangeInit()); o["body"] = st(W->getBody());
      if (W->getLoopVariable()->getInit()) o["vinit"] = ex(W->getLoopVariable()->getInit());
      return o;
    }
    if (auto *W = dyn_cast<SwitchStmt>(S)) { o["k"] = "Switch"; o["init"] = opt(W->getInit()); o["cond"] = ex(W->getCond()); o["body"] = st(W->getBody()); return o; }
    if (auto *W = dyn_cast<CaseStmt>(S)) {
      o["k"] = "Case"; o["val"] = ex(W->getLHS());
      Expr::EvalResult R; if (W->getLHS()->EvaluateAsInt(R, C)) o["iv"] = (int64_t)R.Val.getInt().getExtValue();
      o["sub"] = opt(W->getSubStmt()); return o;
    }
    if (auto *W = dyn_cast<DefaultStmt>(S)) { o["k"] = "Default"; o["sub"] = opt(W->getSubStmt()); return o; }
    if (auto *W = dyn_cast<ReturnStmt>(S)) { o["k"] = "Return"; o["v"] = opt(W->getRetValue()); return o; }
    if (isa<BreakStmt>(S)) { o["k"] = "Break"; return o; }
    if (isa<ContinueStmt>(S)) { o["k"] = "Continue"; return o; }
    if (isa<NullStmt>(S)) { o["k"] = "Null"; return o; }
    if (auto *G = dyn_cast<GotoStmt>(S)) { o["k"] = "Goto"; o["n"] = G->getLabel()->getNameAsString(); return o; }
    if (auto *L = dyn_cast<LabelStmt>(S)) { o["k"] = "Label"; o["n"] = L->getName(); o["sub"] = st(L->getSubStmt()); return o; }
    if (auto *A = dyn_cast<AttributedStmt>(S)) return st(A->getSubStmt());
    if (auto *T = dyn_cast<CXXTryStmt>(S)) {
      o["k"] = "Try"; o["body"] = st(T->getTryBlock()); J::Array a;
      for (unsigned i = 0; i < T->getNumHandlers(); i++) {
        J::Object h; auto *H = T->getHandler(i);
        h["t"] = tyq(H->getCaughtType()); if (H->getExceptionDecl()) h["var"] = var(H->getExceptionDecl());
        h["body"] = st(H->getHandlerBlock()); a.push_back(std::move(h));
      }
      o["handlers"] = std::move(a); return o;
    }
    if (auto *B = dyn_cast<CompoundStmt>(S)) {
      o["k"] = "Block"; J::Array a; for (auto *s : B->body()) a.push_back(st(s)); o["c"] = std::move(a); return o;
    }
    o["k"] = std::string("?") + S->getStmtClassName();
    J::Array a; for (auto *s : S->children()) if (s) a.push_back(st(s)); o["c"] = std::move(a);
    return o;
  }
  J::Array args(const Expr *const *b, unsigned n) { J::Array a; for (unsigned i = 0; i < n; i++) a.push_back(ex(b[i])); return a; }
  J::Value ex(const Expr *E) {
    // transparent wrappers
    for (;;) {
      if (auto *p = dyn_cast<ParenExpr>(E)) E = p->getSubExpr();
      else if (auto *p = dyn_cast<ExprWithCleanups>(E)) E = p->getSubExpr();
      else if (auto *p = dyn_cast<CXXBindTemporaryExpr>(E)) E = p->getSubExpr();
      else if (auto *p = dyn_cast<ConstantExpr>(E)) E = p->getSubExpr();
      else if (auto *p = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = p->getReplacement();
      else if (auto *p = dyn_cast<CXXRewrittenBinaryOperator>(E)) E = p->getSemanticForm();
      else break;
    }
    J::Object o; loc(o, E); o["t"] = ty(E->getType());
    if (E->isGLValue()) o["gl"] = true;
    if (auto *M = dyn_cast<MaterializeTemporaryExpr>(E)) { o["k"] = "Temp"; o["c"] = J::Array{ex(M->getSubExpr())}; return o; }
    if (auto *D = dyn_cast<CXXDefaultArgExpr>(E)) { o["k"] = "DefArg"; o["c"] = J::Array{ex(D->getExpr())}; return o; }
    if (auto *D = dyn_cast<CXXDefaultInitExpr>(E)) { o["k"] = "DefInit"; o["c"] = J::Array{ex(D->getExpr())}; return o; }
    if (auto *K = dyn_cast<CastExpr>(E)) {
      o["ck"] = K->getCastKindName();
      if (isa<ExplicitCastExpr>(E)) { o["xc"] = E->getStmtClassName(); }
      o["k"] = K->getCastKind() == CK_LValueToRValue ? "Load" : "Cast";
      o["c"] = J::Array{ex(K->getSubExpr())};
      if (auto *f = K->getConversionFunction()) if (auto *ff = dyn_cast<FunctionDecl>(f)) o["fn"] = fref(ff);
      return o;
    }
    if (auto *D = dyn_cast<DeclRefExpr>(E)) {
      o["k"] = "Ref"; auto *V = D->getDecl(); o["n"] = V->getNameAsString();
      if (auto *F = dyn_cast<FunctionDecl>(V)) { o["rk"] = "func"; o["fn"] = fref(F); }
      else if (auto *EC = dyn_cast<EnumConstantDecl>(V)) { o["rk"] = "enum"; o["q"] = EC->getQualifiedNameAsString(); o["iv"] = (int64_t)EC->getInitVal().getExtValue(); }
      else if (auto *VD = dyn_cast<VarDecl>(V)) {
        o["rk"] = "var"; J::Object v = var(VD); for (auto &kv : v) if (kv.first != "t") o[kv.first] = std::move(kv.second); o["vt"] = tyq(VD->getType());
        o["par"] = isa<ParmVarDecl>(VD);
        if (VD->hasGlobalStorage() && !D->isValueDependent() && !D->isTypeDependent() && VD->getType()->isIntegralType(C) && VD->getType().isConstQualified()) {
          Expr::EvalResult R;
          if (D->EvaluateAsInt(R, C) && R.Val.isInt() && R.Val.getInt().getSignificantBits() <= 62) o["cv"] = (int64_t)R.Val.getInt().getExtValue();
        }
      } else { o["rk"] = "other"; o["q"] = V->getQualifiedNameAsString(); }
      return o;
    }
    if (auto *M = dyn_cast<MemberExpr>(E)) {
      o["k"] = "Member"; auto *D = M->getMemberDecl(); o["n"] = D->getNameAsString(); o["arrow"] = M->isArrow();
      if (auto *FD = dyn_cast<FieldDecl>(D)) { o["mk"] = "field"; o["cls"] = recName(cast<CXXRecordDecl>(FD->getParent())); o["ft"] = tyq(FD->getType()); }
      else if (auto *F = dyn_cast<FunctionDecl>(D)) { o["mk"] = "method"; o["fn"] = fref(F); }
      else if (auto *V = dyn_cast<VarDecl>(D)) { o["mk"] = "var"; o["g"] = V->getQualifiedNameAsString(); }
      o["c"] = J::Array{ex(M->getBase())}; return o;
    }
    if (auto *K = dyn_cast<CallExpr>(E)) {
      o["k"] = isa<CXXOperatorCallExpr>(E) ? "OpCall" : isa<CXXMemberCallExpr>(E) ? "MCall" : "Call";
      if (auto *F = K->getDirectCallee()) o["fn"] = fref(F);
      if (auto *OC = dyn_cast<CXXOperatorCallExpr>(E)) { o["op"] = getOperatorSpelling(OC->getOperator()); }
      if (auto *MC = dyn_cast<CXXMemberCallExpr>(E)) {
        auto *cal = MC->getCallee()->IgnoreParens();
        if (auto *ME = dyn_cast<MemberExpr>(cal)) {
          o["obj"] = ex(ME->getBase()); o["arrow"] = ME->isArrow(); if (ME->hasQualifier()) o["qual"] = true;
        } else o["callee"] = ex(cal);
      } else if (!o.get("fn")) o["callee"] = ex(K->getCallee());
      o["c"] = args(K->getArgs(), K->getNumArgs());
      return o;
    }
    if (auto *K = dyn_cast<CXXConstructExpr>(E)) {
      o["k"] = "Construct"; o["fn"] = fref(K->getConstructor());
      o["c"] = args(K->getArgs(), K->getNumArgs());
      if (isa<CXXTemporaryObjectExpr>(E)) o["tmp"] = true;
      if (K->isElidable()) o["elid"] = true;
      if (K->isListInitialization()) o["list"] = true;
      return o;
    }
    if (auto *N = dyn_cast<CXXNewExpr>(E)) {
      o["k"] = "New"; o["at"] = tyq(N->getAllocatedType()); if (N->isArray()) o["arr"] = true;
      if (N->getInitializer()) o["c"] = J::Array{ex(N->getInitializer())}; return o;
    }
    if (auto *N = dyn_cast<CXXDeleteExpr>(E)) { o["k"] = "Delete"; o["arr"] = N->isArrayForm(); o["dt"] = ty(N->getDestroyedType()); o["c"] = J::Array{ex(N->getArgument())}; return o; }
    if (isa<CXXThisExpr>(E)) { o["k"] = "This"; return o; }
    if (auto *T = dyn_cast<CXXThrowExpr>(E)) { o["k"] = "Throw"; if (T->getSubExpr()) { o["tt"] = ty(T->getSubExpr()->getType()); o["c"] = J::Array{ex(T->getSubExpr())}; } return o; }
    if (auto *U = dyn_cast<UnaryOperator>(E)) { o["k"] = "Un"; o["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()); o["post"] = U->isPostfix(); o["c"] = J::Array{ex(U->getSubExpr())}; return o; }
    if (auto *B = dyn_cast<BinaryOperator>(E)) { o["k"] = "Bin"; o["op"] = B->getOpcodeStr(); o["c"] = J::Array{ex(B->getLHS()), ex(B->getRHS())}; return o; }
    if (auto *Q = dyn_cast<ConditionalOperator>(E)) { o["k"] = "Cond"; o["c"] = J::Array{ex(Q->getCond()), ex(Q->getTrueExpr()), ex(Q->getFalseExpr())}; return o; }
    if (auto *I = dyn_cast<IntegerLiteral>(E)) { o["k"] = "Int"; llvm::SmallString<32> s; I->getValue().toString(s, 10, true); o["v"] = s.str().str(); return o; }
    if (auto *I = dyn_cast<FloatingLiteral>(E)) { o["k"] = "Float"; o["v"] = I->getValueAsApproximateDouble(); return o; }
    if (auto *I = dyn_cast<CXXBoolLiteralExpr>(E)) { o["k"] = "Bool"; o["v"] = I->getValue(); return o; }
    if (auto *I = dyn_cast<CharacterLiteral>(E)) { o["k"] = "Char"; o["v"] = (int64_t)I->getValue(); return o; }
    if (auto *I = dyn_cast<clang::StringLiteral>(E)) {
      o["k"] = "Str"; std::string s = I->isOrdinary() ? I->getString().str() : "";
      o["v"] = llvm::json::fixUTF8(s); return o; }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { o["k"] = "Null"; return o; }
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) { o["k"] = "ZeroInit"; return o; }
    if (auto *S = dyn_cast<ArraySubscriptExpr>(E)) { o["k"] = "Index"; o["c"] = J::Array{ex(S->getBase()), ex(S->getIdx())}; return o; }
    if (auto *I = dyn_cast<InitListExpr>(E)) { o["k"] = "InitList"; J::Array a; for (auto *e : I->inits()) a.push_back(ex(e)); o["c"] = std::move(a); return o; }
    if (auto *I = dyn_cast<CXXStdInitializerListExpr>(E)) { o["k"] = "StdInitList"; o["c"] = J::Array{ex(I->getSubExpr())}; return o; }
    if (auto *L = dyn_cast<LambdaExpr>(E)) {
      o["k"] = "Lambda"; o["fn"] = fref(L->getCallOperator()); addPending(L->getCallOperator());
      J::Array cs; unsigned i = 0; auto it = L->capture_init_begin();
      for (auto &c : L->captures()) {
        J::Object co;
        if (c.capturesThis()) co["this"] = true;
        else if (c.capturesVariable()) { auto *v = dyn_cast<VarDecl>(c.getCapturedVar()); if (v) { co["id"] = did(v); co["n"] = v->getNameAsString(); } }
        co["byref"] = c.getCaptureKind() == LCK_ByRef; (void)i; (void)it;
        cs.push_back(std::move(co));
      }
      o["caps"] = std::move(cs); return o;
    }
    if (auto *S = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) { o["k"] = "SizeOf"; Expr::EvalResult R; if (E->EvaluateAsInt(R, C)) o["iv"] = (int64_t)R.Val.getInt().getExtValue(); (void)S; return o; }
    if (isa<PredefinedExpr>(E)) { o["k"] = "Str"; o["v"] = "__func__"; return o; }
    o["k"] = std::string("?") + E->getStmtClassName();
    J::Array a; for (auto *s : E->children()) if (s) a.push_back(st(s)); o["c"] = std::move(a);
    return o;
  }
  void func(const FunctionDecl *F) {
    if (F->isDependentContext()) return;
    const FunctionDecl *B = nullptr;
    bool has = F->hasBody(B); if (has) F = B;
    if (!has && !(F->isDefaulted())) return;
    std::string id = fid(F);
    if (!seenF.insert(id).second) return;
    J::Object o = fref(F);
    o["file"] = rel(fileOf(F->getLocation())); o["line"] = lineOf(F->getLocation());
    if (F->isImplicit()) o["implicit"] = true;
    if (F->isDefaulted()) o["defaulted"] = true;
    if (auto *PT = F->getType()->getAs<FunctionProtoType>()) {
      auto e = PT->getExceptionSpecType();
      if (e == EST_BasicNoexcept || e == EST_NoexceptTrue || e == EST_DynamicNone || e == EST_NoThrow) o["noexcept"] = true;
    }
    J::Array ps; for (auto *P : F->parameters()) { J::Object p = var(P); ps.push_back(std::move(p)); }
    o["params"] = std::move(ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      J::Array ov; for (auto *m : M->overridden_methods()) ov.push_back(fid(m)); o["over"] = std::move(ov);
    }
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      J::Array a;
      for (auto *I : K->inits()) {
        J::Object i; i["l"] = lineOf(I->getSourceLocation()); i["written"] = I->isWritten();
        if (I->isBaseInitializer()) { i["base"] = ty(QualType(I->getBaseClass(), 0)); i["vbase"] = I->isBaseVirtual(); }
        else if (I->isAnyMemberInitializer()) i["field"] = I->getAnyMember()->getNameAsString();
        else i["deleg"] = true;
        i["e"] = ex(I->getInit()); a.push_back(std::move(i));
      }
      o["inits"] = std::move(a);
    }
    if (has && F->getBody()) o["body"] = st(F->getBody());
    funcs.push_back(std::move(o));
  }
  void rec(const CXXRecordDecl *R) {
    if (!R->isCompleteDefinition() || R->isDependentContext()) return;
    std::string n = recName(R);
    if (!seenR.insert(n).second) return;
    J::Object o; o["n"] = n; o["file"] = rel(fileOf(R->getLocation())); o["line"] = lineOf(R->getLocation());
    if (R->isUnion()) o["union"] = true;
    if (R->isAbstract()) o["abstract"] = true;
    J::Array bs; for (auto &b : R->bases()) { J::Object bo; bo["n"] = ty(b.getType()); bo["virt"] = b.isVirtual(); bs.push_back(std::move(bo)); } o["bases"] = std::move(bs);
    J::Array fs;
    for (auto *f : R->fields()) { J::Object fo; fo["n"] = f->getNameAsString(); fo["t"] = tyq(f->getType()); fo["l"] = lineOf(f->getLocation()); if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = ex(f->getInClassInitializer());
      fo["pod"] = f->getType().isTrivialType(C) || f->getType()->isPointerType(); fs.push_back(std::move(fo)); }
    o["fields"] = std::move(fs);
    J::Array ms;
    for (auto *m : R->methods()) { J::Object mo = fref(m); mo["deleted"] = m->isDeleted(); mo["implicit"] = m->isImplicit(); mo["defaulted"] = m->isDefaulted(); mo["pure"] = m->isPureVirtual();
      J::Array ov; for (auto *x : m->overridden_methods()) ov.push_back(fid(x)); mo["over"] = std::move(ov); ms.push_back(std::move(mo)); }
    o["methods"] = std::move(ms);
    o["hasUserCopy"] = R->hasUserDeclaredCopyConstructor(); o["hasUserCopyAsg"] = R->hasUserDeclaredCopyAssignment();
    o["hasUserDtor"] = R->hasUserDeclaredDestructor(); o["needsCopy"] = R->needsImplicitCopyConstructor();
    recs.push_back(std::move(o));
  }
  void glob(const VarDecl *V) {
    J::Object o = var(V); std::string n = V->getQualifiedNameAsString();
    if (V->isThisDeclarationADefinition() == VarDecl::DeclarationOnly) return;
    if (V->isLocalVarDecl()) n += "@" + rel(fileOf(V->getLocation())) + ":" + std::to_string(lineOf(V->getLocation()));
    if (!seenG.insert(n).second) return;
    o["q"] = n; o["file"] = rel(fileOf(V->getLocation())); o["line"] = lineOf(V->getLocation()); o["const"] = V->getType().isConstQualified() || (V->getType()->isArrayType() && C.getBaseElementType(V->getType()).isConstQualified());
    if (V->getInit() && !V->getInit()->isValueDependent()) {
      const Expr *I = V->getInit()->IgnoreImplicit();
      if (auto *L = dyn_cast<InitListExpr>(I)) {
        if (L->getNumInits() > 32) { // numeric table
          J::Array a; bool ok = true;
          for (auto *e : L->inits()) { Expr::EvalResult R; if (e->EvaluateAsInt(R, C)) a.push_back((int64_t)R.Val.getInt().getExtValue()); else { ok = false; break; } }
          if (ok) o["table"] = std::move(a); else o["init"] = ex(V->getInit());
        } else o["init"] = ex(V->getInit());
      } else o["init"] = ex(V->getInit());
    }
    globals.push_back(std::move(o));
  }
};
struct V : RecursiveASTVisitor<V> {
  X &x; V(X &x) : x(x) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!x.inRoot(F)) return true;
    if (F->doesThisDeclarationHaveABody() || (F->isDefaulted() && F->isImplicit() && !F->isDeleted())) x.func(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { if (x.inRoot(R)) x.rec(R); return true; }
  bool VisitVarDecl(VarDecl *D) { if (x.inRoot(D) && D->hasGlobalStorage() && !D->getDeclContext()->isDependentContext()) x.glob(D); return true; }
};
struct Cons : ASTConsumer {
  std::string file; Cons(StringRef f) : file(f.str()) {}
  void HandleTranslationUnit(ASTContext &C) override {
    X x(C); V v(x); v.TraverseDecl(C.getTranslationUnitDecl());
    for (size_t i = 0; i < x.pending.size(); i++) x.func(x.pending[i]);
    J::Object o; o["tu"] = file; o["errors"] = (int64_t)C.getDiagnostics().getClient()->getNumErrors();
    o["funcs"] = std::move(x.funcs); o["recs"] = std::move(x.recs); o["globals"] = std::move(x.globals);
    std::error_code ec; llvm::raw_fd_ostream os(Out, ec); os << J::Value(std::move(o)) << "\n";
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef f) override { return std::make_unique<Cons>(f); }
};
int main(int argc, const char **argv) {
  auto P = CommonOptionsParser::create(argc, argv, Cat);
  if (!P) { llvm::errs() << llvm::toString(P.takeError()); return 3; }
  ClangTool T(P->getCompilations(), P->getSourcePathList());
  T.appendArgumentsAdjuster(getInsertArgumentAdjuster({"-resource-dir=/usr/lib/llvm-18/lib/clang/18", "-w", "-Wno-everything"}, ArgumentInsertPosition::END));
  return T.run(newFrontendActionFactory<Act>().get());
}
