// efsw fact extractor: parses translation units with Clang and dumps, for every
// function defined under the repository root, a normalised CFG in JSON.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/RecordLayout.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string Root;
static Object Funcs, Records, Enums, Globals;
static std::set<std::string> Seen;

static std::string usrOf(const Decl* D) {
  llvm::SmallString<128> Buf;
  if (index::generateUSRForDecl(D->getCanonicalDecl(), Buf)) {
    return "?" + std::to_string((uintptr_t)D->getCanonicalDecl());
  }
  return Buf.str().str();
}
static std::string qual(const NamedDecl* D) {
  std::string s;
  llvm::raw_string_ostream os(s);
  PrintingPolicy P(D->getASTContext().getPrintingPolicy());
  P.SuppressUnwrittenScope = true;
  D->printQualifiedName(os, P);
  return os.str();
}
static std::string locStr(const SourceManager& SM, SourceLocation L, unsigned* line = nullptr) {
  L = SM.getExpansionLoc(L);
  if (line) *line = SM.getExpansionLineNumber(L);
  std::string f = SM.getFilename(L).str();
  if (f.rfind(Root, 0) == 0) f = f.substr(Root.size() + 1);
  return f;
}
static bool inRepo(const SourceManager& SM, SourceLocation L) {
  L = SM.getExpansionLoc(L);
  llvm::SmallString<256> p(SM.getFilename(L));
  return p.str().starts_with(Root);
}
static Object typeObj(QualType T, ASTContext& C) {
  Object o;
  if (T.isNull()) { o["s"] = "?"; return o; }
  bool ref = T->isReferenceType();
  bool rv = T->isRValueReferenceType();
  if (ref) T = T->getPointeeType();
  QualType Can = T.getCanonicalType();
  PrintingPolicy P(C.getPrintingPolicy());
  P.SuppressTagKeyword = true;
  o["s"] = Can.getUnqualifiedType().getAsString(P);
  if (ref) o["ref"] = rv ? 2 : 1;
  if (Can.isConstQualified()) o["const"] = true;
  if (Can.isVolatileQualified()) o["volatile"] = true;
  if (Can->isPointerType()) {
    o["k"] = "ptr";
    QualType Pt = Can->getPointeeType();
    if (auto* R = Pt->getAsCXXRecordDecl()) o["rec"] = qual(R);
  } else if (auto* R = Can->getAsCXXRecordDecl()) {
    o["k"] = "rec";
    o["rec"] = qual(R);
    if (auto* S = dyn_cast<ClassTemplateSpecializationDecl>(R)) (void)S;
  } else if (Can->isRecordType()) {
    o["k"] = "rec";
    o["rec"] = qual(Can->getAs<RecordType>()->getDecl());
  } else if (Can->isBooleanType()) o["k"] = "bool";
  else if (Can->isEnumeralType()) { o["k"] = "enum"; o["rec"] = qual(Can->getAs<EnumType>()->getDecl()); }
  else if (Can->isIntegerType()) { o["k"] = "int"; o["w"] = (int64_t)C.getTypeSize(Can); o["sg"] = Can->isSignedIntegerType(); }
  else if (Can->isArrayType()) {
    o["k"] = "arr";
    if (auto* A = dyn_cast<ConstantArrayType>(Can.getTypePtr())) o["n"] = (int64_t)A->getSize().getZExtValue();
  } else if (Can->isVoidType()) o["k"] = "void";
  else o["k"] = "other";
  return o;
}

struct FnDumper {
  ASTContext& C;
  const SourceManager& SM;
  std::map<const void*, int> ids;
  std::map<const Decl*, int> declIds;
  Object nodes, decls;
  std::vector<const Expr*> pending;
  int next = 0;
  FnDumper(ASTContext& C) : C(C), SM(C.getSourceManager()) {}

  int declId(const ValueDecl* D) {
    auto it = declIds.find(D);
    if (it != declIds.end()) return it->second;
    int id = declIds.size() + 1;
    declIds[D] = id;
    Object o;
    o["name"] = D->getNameAsString();
    o["t"] = typeObj(D->getType(), C);
    unsigned line = 0;
    locStr(SM, D->getLocation(), &line);
    o["line"] = (int64_t)line;
    if (auto* V = dyn_cast<VarDecl>(D)) {
      if (isa<ParmVarDecl>(V)) o["kind"] = "param";
      else if (V->isStaticLocal()) { o["kind"] = "static"; o["usr"] = usrOf(V); }
      else if (V->hasGlobalStorage()) { o["kind"] = "global"; o["usr"] = usrOf(V); o["qual"] = qual(V); }
      else o["kind"] = "local";
    } else o["kind"] = "other";
    decls[std::to_string(id)] = std::move(o);
    return id;
  }

  const Expr* strip(const Expr* E) {
    while (E) {
      if (auto* P = dyn_cast<ParenExpr>(E)) E = P->getSubExpr();
      else if (auto* X = dyn_cast<ConstantExpr>(E)) E = X->getSubExpr();
      else if (auto* X = dyn_cast<ExprWithCleanups>(E)) E = X->getSubExpr();
      else if (auto* X = dyn_cast<MaterializeTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto* X = dyn_cast<CXXBindTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto* X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = X->getReplacement();
      else if (auto* X = dyn_cast<CXXDefaultArgExpr>(E)) E = X->getExpr();
      else if (auto* X = dyn_cast<CXXDefaultInitExpr>(E)) E = X->getExpr();
      else if (auto* X = dyn_cast<CXXStdInitializerListExpr>(E)) E = X->getSubExpr();
      else if (auto* X = dyn_cast<CXXRewrittenBinaryOperator>(E)) E = X->getSemanticForm();
      else if (auto* X = dyn_cast<CastExpr>(E)) {
        switch (X->getCastKind()) {
          case CK_LValueToRValue: case CK_PointerToBoolean: case CK_IntegralToBoolean:
          case CK_IntegralCast: case CK_ArrayToPointerDecay: case CK_ToVoid:
          case CK_FloatingToIntegral: case CK_IntegralToFloating:
            return E;
          default: E = X->getSubExpr();
        }
      } else return E;
    }
    return E;
  }

  Value exprId(const Expr* E) {
    if (!E) return nullptr;
    return node(E);
  }

  int node(const Expr* E0) {
    const Expr* E = strip(E0);
    auto it = ids.find(E);
    if (it != ids.end()) return it->second;
    int id = ++next;
    ids[E] = id;
    Object o;
    build(E, o);
    unsigned line = 0;
    std::string f = locStr(SM, E->getBeginLoc(), &line);
    o["line"] = (int64_t)line;
    nodes[std::to_string(id)] = std::move(o);
    return id;
  }

  Array args(llvm::ArrayRef<const Expr*> A) {
    Array r;
    for (auto* x : A) r.push_back(exprId(x));
    return r;
  }

  void callee(Object& o, const FunctionDecl* F) {
    o["usr"] = usrOf(F);
    o["q"] = qual(F);
    o["n"] = F->getNameAsString();
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = qual(M->getParent());
      if (M->isVirtual()) o["virt"] = true;
      if (M->isStatic()) o["static"] = true;
      if (M->isConst()) o["cm"] = true;
    }
    Array pt;
    for (auto* p : F->parameters()) pt.push_back(typeObj(p->getType(), C));
    o["pt"] = std::move(pt);
    o["repo"] = inRepo(SM, F->getLocation());
  }

  void build(const Expr* E, Object& o) {
    o["t"] = typeObj(E->getType(), C);
    if (E->isGLValue()) o["lv"] = true;
    if (!E->isValueDependent() && E->isPRValue() && E->getType()->isIntegralOrEnumerationType()) {
      Expr::EvalResult R;
      if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
        o["k"] = "int";
        auto& V = R.Val.getInt();
        if (V.isSigned()) o["v"] = (int64_t)V.getSExtValue();
        else if (V.getActiveBits() <= 63) o["v"] = (int64_t)V.getZExtValue();
        else o["v"] = (int64_t)V.getZExtValue();
        o["uns"] = !V.isSigned();
        if (auto* DR = dyn_cast<DeclRefExpr>(E)) o["sym"] = qual(DR->getDecl());
        return;
      }
    }
    if (E->isNullPointerConstant(C, Expr::NPC_ValueDependentIsNotNull) != Expr::NPCK_NotNull &&
        (E->getType()->isPointerType() || E->getType()->isNullPtrType())) {
      o["k"] = "null";
      return;
    }
    if (auto* X = dyn_cast<CastExpr>(E)) {
      switch (X->getCastKind()) {
        case CK_LValueToRValue: o["k"] = "load"; break;
        case CK_PointerToBoolean: case CK_IntegralToBoolean: o["k"] = "tobool"; break;
        case CK_ArrayToPointerDecay: o["k"] = "decay"; break;
        default: o["k"] = "icast"; break;
      }
      o["sub"] = exprId(X->getSubExpr());
      return;
    }
    if (auto* X = dyn_cast<DeclRefExpr>(E)) {
      if (auto* F = dyn_cast<FunctionDecl>(X->getDecl())) {
        o["k"] = "fn";
        callee(o, F);
      } else {
        o["k"] = "var";
        o["d"] = declId(X->getDecl());
        o["name"] = X->getDecl()->getNameAsString();
        if (X->refersToEnclosingVariableOrCapture()) o["cap"] = true;
        o["du"] = usrOf(X->getDecl());
      }
      return;
    }
    if (auto* X = dyn_cast<MemberExpr>(E)) {
      auto* D = X->getMemberDecl();
      if (auto* F = dyn_cast<FieldDecl>(D)) {
        o["k"] = "mem";
        o["base"] = exprId(X->getBase());
        o["f"] = qual(F);
        o["arrow"] = X->isArrow();
      } else if (auto* V = dyn_cast<VarDecl>(D)) {
        o["k"] = "var"; o["d"] = declId(V); o["name"] = V->getNameAsString(); o["du"] = usrOf(V);
      } else {
        o["k"] = "memfn";
        o["base"] = exprId(X->getBase());
        o["arrow"] = X->isArrow();
        if (auto* F2 = dyn_cast<FunctionDecl>(D)) callee(o, F2);
      }
      return;
    }
    if (isa<CXXThisExpr>(E)) { o["k"] = "this"; return; }
    if (auto* X = dyn_cast<StringLiteral>(E)) {
      o["k"] = "str";
      if (X->getCharByteWidth() == 1) {
        std::string s = X->getString().str();
        std::string u = llvm::json::isUTF8(s) ? s : llvm::json::fixUTF8(s);
        o["v"] = u;
      } else o["v"] = "?";
      return;
    }
    if (auto* X = dyn_cast<UnaryOperator>(E)) {
      o["k"] = "un";
      o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) o["post"] = true;
      o["sub"] = exprId(X->getSubExpr());
      return;
    }
    if (auto* X = dyn_cast<BinaryOperator>(E)) {
      o["k"] = X->isAssignmentOp() ? "assign" : "bin";
      o["op"] = X->getOpcodeStr().str();
      o["l"] = exprId(X->getLHS());
      o["r"] = exprId(X->getRHS());
      return;
    }
    if (auto* X = dyn_cast<AbstractConditionalOperator>(E)) {
      o["k"] = "cond";
      o["c"] = exprId(X->getCond());
      o["a"] = exprId(X->getTrueExpr());
      o["b"] = exprId(X->getFalseExpr());
      return;
    }
    if (auto* X = dyn_cast<ArraySubscriptExpr>(E)) {
      o["k"] = "sub";
      o["base"] = exprId(X->getBase());
      o["idx"] = exprId(X->getIdx());
      return;
    }
    if (auto* X = dyn_cast<CXXOperatorCallExpr>(E)) {
      o["k"] = "call";
      std::vector<const Expr*> A(X->arg_begin(), X->arg_end());
      if (auto* F = X->getDirectCallee()) {
        callee(o, F);
        auto* M = dyn_cast<CXXMethodDecl>(F);
        if (M && !M->isStatic()) {
          o["obj"] = exprId(A[0]);
          A.erase(A.begin());
        }
      } else { o["n"] = "?"; o["q"] = "?"; o["usr"] = "?"; }
      o["oper"] = true;
      o["args"] = args(A);
      return;
    }
    if (auto* X = dyn_cast<CXXMemberCallExpr>(E)) {
      o["k"] = "call";
      if (auto* M = X->getMethodDecl()) {
        callee(o, M);
        auto* ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens());
        if (ME) {
          o["obj"] = exprId(ME->getBase());
          o["arrow"] = ME->isArrow();
          if (ME->hasQualifier()) o["nonvirt"] = true;
        }
      } else { o["n"] = "?"; o["q"] = "?"; o["usr"] = "?"; }
      o["args"] = args(llvm::ArrayRef<const Expr*>(X->getArgs(), X->getNumArgs()));
      return;
    }
    if (auto* X = dyn_cast<CallExpr>(E)) {
      o["k"] = "call";
      if (auto* F = X->getDirectCallee()) {
        callee(o, F);
        if (F->getReturnType()->isVoidType()) o["void"] = true;
      } else {
        o["n"] = "?"; o["q"] = "?"; o["usr"] = "?";
        o["fnexpr"] = exprId(X->getCallee());
      }
      o["args"] = args(llvm::ArrayRef<const Expr*>(X->getArgs(), X->getNumArgs()));
      return;
    }
    if (auto* X = dyn_cast<CXXConstructExpr>(E)) {
      o["k"] = "ctor";
      auto* D = X->getConstructor();
      callee(o, D);
      if (D->isCopyConstructor()) o["copy"] = true;
      if (D->isMoveConstructor()) o["move"] = true;
      if (D->isDefaultConstructor()) o["def"] = true;
      o["args"] = args(llvm::ArrayRef<const Expr*>(X->getArgs(), X->getNumArgs()));
      if (isa<CXXTemporaryObjectExpr>(X)) o["temp"] = true;
      return;
    }
    if (auto* X = dyn_cast<CXXNewExpr>(E)) {
      o["k"] = "new";
      o["at"] = typeObj(X->getAllocatedType(), C);
      if (X->isArray()) { o["array"] = true; if (X->getArraySize()) o["size"] = exprId(*X->getArraySize()); }
      if (X->getInitializer()) o["init"] = exprId(X->getInitializer());
      return;
    }
    if (auto* X = dyn_cast<CXXDeleteExpr>(E)) {
      o["k"] = "delete";
      o["sub"] = exprId(X->getArgument());
      if (X->isArrayForm()) o["array"] = true;
      auto T = X->getDestroyedType();
      if (!T.isNull()) o["dt"] = typeObj(T, C);
      return;
    }
    if (auto* X = dyn_cast<LambdaExpr>(E)) {
      o["k"] = "lambda";
      o["usr"] = usrOf(X->getCallOperator());
      unsigned line; std::string f = locStr(SM, X->getBeginLoc(), &line);
      unsigned col = SM.getExpansionColumnNumber(X->getBeginLoc());
      o["usr"] = "lambda@" + f + ":" + std::to_string(line) + ":" + std::to_string(col);
      Array caps;
      auto ci = X->capture_init_begin();
      for (auto& c : X->captures()) {
        Object co;
        if (c.capturesThis()) co["this"] = true;
        else if (c.capturesVariable()) {
          co["d"] = declId(cast<ValueDecl>(c.getCapturedVar()));
          co["du"] = usrOf(c.getCapturedVar());
          co["name"] = c.getCapturedVar()->getNameAsString();
        }
        co["ref"] = c.getCaptureKind() == LCK_ByRef;
        if (ci != X->capture_init_end()) { co["init"] = exprId(*ci); ++ci; }
        caps.push_back(std::move(co));
      }
      o["caps"] = std::move(caps);
      return;
    }
    if (auto* X = dyn_cast<InitListExpr>(E)) {
      o["k"] = "initlist";
      Array a;
      for (auto* x : X->inits()) a.push_back(exprId(x));
      o["elems"] = std::move(a);
      if (auto* R = E->getType()->getAsCXXRecordDecl()) {
        Array fs;
        for (auto* f : R->fields()) fs.push_back(qual(f));
        o["fields"] = std::move(fs);
      }
      return;
    }
    if (auto* X = dyn_cast<CXXScalarValueInitExpr>(E)) { (void)X; o["k"] = "int"; o["v"] = 0; return; }
    if (isa<ImplicitValueInitExpr>(E)) { o["k"] = "zero"; return; }
    if (auto* X = dyn_cast<CXXThrowExpr>(E)) { o["k"] = "throw"; o["sub"] = exprId(X->getSubExpr()); return; }
    if (auto* X = dyn_cast<CompoundLiteralExpr>(E)) { o["k"] = "icast"; o["sub"] = exprId(X->getInitializer()); return; }
    o["k"] = "other";
    o["c"] = E->getStmtClassName();
    Array ch;
    for (auto* c : E->children())
      if (auto* ce = dyn_cast_or_null<Expr>(c)) ch.push_back(exprId(ce));
    o["ch"] = std::move(ch);
  }

  Value stmtElem(const Stmt* S) {
    Object o;
    unsigned line = 0;
    locStr(SM, S->getBeginLoc(), &line);
    if (auto* D = dyn_cast<DeclStmt>(S)) {
      o["k"] = "decl";
      Array vs;
      for (auto* d : D->decls())
        if (auto* V = dyn_cast<VarDecl>(d)) {
          Object vo;
          vo["d"] = declId(V);
          vo["name"] = V->getNameAsString();
          vo["t"] = typeObj(V->getType(), C);
          if (V->isStaticLocal()) vo["static"] = true;
          if (V->getInit()) vo["init"] = exprId(V->getInit());
          vs.push_back(std::move(vo));
        }
      o["vars"] = std::move(vs);
      o["line"] = (int64_t)line;
      return o;
    }
    if (auto* R = dyn_cast<ReturnStmt>(S)) {
      o["k"] = "ret";
      if (R->getRetValue()) o["v"] = exprId(R->getRetValue());
      o["line"] = (int64_t)line;
      return o;
    }
    if (auto* E = dyn_cast<Expr>(S)) {
      const Expr* st = strip(E);
      if (st != E) return nullptr; // transparent wrapper: its sub-expression has its own element
      o["k"] = "e";
      o["n"] = node(E);
      o["line"] = (int64_t)line;
      return o;
    }
    return nullptr;
  }
};

static void dumpBody(const Decl* D, const Stmt* Body, FnDumper& FD, Object& fo) {
  ASTContext& C = FD.C;
  CFG::BuildOptions BO;
  BO.AddImplicitDtors = true;
  BO.AddTemporaryDtors = true;
  BO.AddInitializers = true;
  BO.AddCXXDefaultInitExprInCtors = true;
  BO.setAllAlwaysAdd();
  std::unique_ptr<CFG> G = CFG::buildCFG(D, const_cast<Stmt*>(Body), &C, BO);
  if (!G) { fo["nocfg"] = true; return; }
  Array blocks;
  for (CFGBlock* B : *G) {
    Object bo;
    bo["id"] = (int64_t)B->getBlockID();
    Array el;
    for (auto& E : *B) {
      switch (E.getKind()) {
        case CFGElement::Statement: case CFGElement::Constructor: case CFGElement::CXXRecordTypedCall: {
          Value v = FD.stmtElem(E.castAs<CFGStmt>().getStmt());
          if (v.kind() != Value::Null) el.push_back(std::move(v));
          break;
        }
        case CFGElement::Initializer: {
          auto* I = E.castAs<CFGInitializer>().getInitializer();
          Object o;
          o["k"] = "init";
          if (I->isAnyMemberInitializer()) o["f"] = qual(I->getAnyMember());
          else if (I->isBaseInitializer()) o["base"] = true;
          else if (I->isDelegatingInitializer()) o["deleg"] = true;
          o["written"] = I->isWritten();
          o["n"] = FD.exprId(I->getInit());
          unsigned line = 0;
          locStr(FD.SM, I->getSourceLocation(), &line);
          o["line"] = (int64_t)line;
          el.push_back(std::move(o));
          break;
        }
        case CFGElement::AutomaticObjectDtor: {
          auto A = E.castAs<CFGAutomaticObjDtor>();
          Object o;
          o["k"] = "adtor";
          o["d"] = FD.declId(A.getVarDecl());
          o["t"] = typeObj(A.getVarDecl()->getType(), C);
          if (auto* X = A.getDestructorDecl(C)) o["usr"] = usrOf(X);
          unsigned line = 0;
          locStr(FD.SM, A.getTriggerStmt()->getEndLoc(), &line);
          o["line"] = (int64_t)line;
          el.push_back(std::move(o));
          break;
        }
        case CFGElement::TemporaryDtor: {
          auto A = E.castAs<CFGTemporaryDtor>();
          Object o;
          o["k"] = "tdtor";
          o["n"] = FD.node(A.getBindTemporaryExpr());
          o["t"] = typeObj(A.getBindTemporaryExpr()->getType(), C);
          if (auto* X = A.getDestructorDecl(C)) o["usr"] = usrOf(X);
          el.push_back(std::move(o));
          break;
        }
        case CFGElement::DeleteDtor: {
          auto A = E.castAs<CFGDeleteDtor>();
          Object o;
          o["k"] = "ddtor";
          o["n"] = FD.node(A.getDeleteExpr());
          if (auto* X = A.getCXXRecordDecl()) {
            o["cls"] = qual(X);
            if (auto* DD = X->getDestructor()) { o["usr"] = usrOf(DD); o["virt"] = DD->isVirtual(); }
          }
          el.push_back(std::move(o));
          break;
        }
        case CFGElement::BaseDtor: {
          Object o; o["k"] = "bdtor";
          auto A = E.castAs<CFGBaseDtor>();
          if (auto* X = A.getDestructorDecl(C)) o["usr"] = usrOf(X);
          el.push_back(std::move(o));
          break;
        }
        case CFGElement::MemberDtor: {
          Object o; o["k"] = "mdtor";
          auto A = E.castAs<CFGMemberDtor>();
          o["f"] = qual(A.getFieldDecl());
          if (auto* X = A.getDestructorDecl(C)) o["usr"] = usrOf(X);
          el.push_back(std::move(o));
          break;
        }
        default: break;
      }
    }
    bo["e"] = std::move(el);
    CFGTerminator T = B->getTerminator();
    if (const Stmt* S = T.getStmt()) {
      Object to;
      to["c"] = T.isTemporaryDtorsBranch() ? "TempDtorBranch" : S->getStmtClassName();
      if (auto* BOp = dyn_cast<BinaryOperator>(S)) { to["op"] = BOp->getOpcodeStr().str(); to["n"] = FD.node(BOp); }
      if (auto* CO = dyn_cast<AbstractConditionalOperator>(S)) to["n"] = FD.node(CO);
      if (const Expr* LC = B->getLastCondition()) to["cond"] = FD.node(LC);
      else if (auto* cond = dyn_cast_or_null<Expr>(T.isTemporaryDtorsBranch() ? nullptr : B->getTerminatorCondition())) to["cond"] = FD.node(cond);
      if (auto* SW = dyn_cast<SwitchStmt>(S)) to["cond"] = FD.node(SW->getCond());
      unsigned line = 0;
      locStr(FD.SM, S->getBeginLoc(), &line);
      to["line"] = (int64_t)line;
      bo["term"] = std::move(to);
    }
    if (const Stmt* L = B->getLabel()) {
      Object lo;
      lo["c"] = L->getStmtClassName();
      if (auto* CS = dyn_cast<CaseStmt>(L)) {
        Expr::EvalResult R;
        if (CS->getLHS()->EvaluateAsInt(R, C)) lo["v"] = (int64_t)R.Val.getInt().getExtValue();
        if (CS->getRHS() && CS->getRHS()->EvaluateAsInt(R, C)) lo["hi"] = (int64_t)R.Val.getInt().getExtValue();
        // a case label may stack several cases
        Array more;
        const Stmt* sub = CS->getSubStmt();
        while (auto* c2 = dyn_cast_or_null<CaseStmt>(sub)) {
          if (c2->getLHS()->EvaluateAsInt(R, C)) more.push_back((int64_t)R.Val.getInt().getExtValue());
          sub = c2->getSubStmt();
        }
        lo["more"] = std::move(more);
      } else if (isa<DefaultStmt>(L)) lo["def"] = true;
      bo["label"] = std::move(lo);
    }
    if (B->getLoopTarget()) bo["loopback"] = true;
    if (B->hasNoReturnElement()) bo["noreturn"] = true;
    Array su;
    for (auto& s : B->succs()) {
      if (CFGBlock* X = s.getReachableBlock()) su.push_back((int64_t)X->getBlockID());
      else su.push_back(nullptr);
    }
    bo["s"] = std::move(su);
    blocks.push_back(std::move(bo));
  }
  fo["blocks"] = std::move(blocks);
  fo["entry"] = (int64_t)G->getEntry().getBlockID();
  fo["exit"] = (int64_t)G->getExit().getBlockID();
}

struct V : RecursiveASTVisitor<V> {
  ASTContext& C;
  const SourceManager& SM;
  V(ASTContext& C) : C(C), SM(C.getSourceManager()) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool shouldVisitLambdaBody() const { return true; }

  void emit(const FunctionDecl* F, std::string key, bool lambda) {
    if (F->isDependentContext() || !F->doesThisDeclarationHaveABody()) return;
    if (!inRepo(SM, F->getLocation())) return;
    if (!Seen.insert(key).second) return;
    FnDumper FD(C);
    Object fo;
    fo["usr"] = key;
    fo["q"] = lambda ? key : qual(F);
    fo["n"] = F->getNameAsString();
    unsigned line = 0;
    fo["file"] = locStr(SM, F->getLocation(), &line);
    fo["line"] = (int64_t)line;
    fo["ret"] = typeObj(F->getReturnType(), C);
    if (lambda) fo["lambda"] = true;
    if (F->isVariadic()) fo["variadic"] = true;
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
      fo["cls"] = qual(M->getParent());
      fo["virt"] = M->isVirtual();
      fo["static"] = M->isStatic();
      fo["access"] = (int64_t)M->getAccess();
      Array ov;
      for (auto* o : M->overridden_methods()) ov.push_back(usrOf(o));
      fo["ov"] = std::move(ov);
      if (isa<CXXConstructorDecl>(F)) fo["isctor"] = true;
      if (isa<CXXDestructorDecl>(F)) fo["isdtor"] = true;
    } else {
      fo["internal"] = F->getFormalLinkage() == Linkage::Internal;
      fo["externC"] = F->isExternC();
    }
    Array ps;
    for (auto* p : F->parameters()) {
      Object po;
      po["d"] = FD.declId(p);
      po["name"] = p->getNameAsString();
      po["t"] = typeObj(p->getType(), C);
      if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) po["def"] = true;
      ps.push_back(std::move(po));
    }
    fo["params"] = std::move(ps);
    // give every captured/outer variable its USR
    dumpBody(F, F->getBody(), FD, fo);
    fo["nodes"] = std::move(FD.nodes);
    fo["decls"] = std::move(FD.decls);
    Funcs[key] = std::move(fo);
  }

  bool VisitFunctionDecl(FunctionDecl* F) {
    if (auto* M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda()) return true;
    if (F->isDefaulted() && !F->isUserProvided()) {
      // still record defaulted destructors etc. via Records
      return true;
    }
    if (F->doesThisDeclarationHaveABody()) emit(F, usrOf(F), false);
    return true;
  }
  bool VisitLambdaExpr(LambdaExpr* L) {
    unsigned line; std::string f = locStr(SM, L->getBeginLoc(), &line);
    unsigned col = SM.getExpansionColumnNumber(L->getBeginLoc());
    emit(L->getCallOperator(), "lambda@" + f + ":" + std::to_string(line) + ":" + std::to_string(col), true);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return true;
    if (!inRepo(SM, R->getLocation())) return true;
    std::string q = qual(R);
    if (Records.get(q)) return true;
    Object o;
    Array fs;
    for (auto* f : R->fields()) {
      Object fo;
      fo["n"] = qual(f);
      fo["t"] = typeObj(f->getType(), C);
      fo["access"] = (int64_t)f->getAccess();
      if (f->hasInClassInitializer()) fo["init"] = true;
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    Array bs;
    for (auto& b : R->bases()) if (auto* br = b.getType()->getAsCXXRecordDecl()) bs.push_back(qual(br));
    o["bases"] = std::move(bs);
    Array ms;
    for (auto* m : R->methods()) {
      Object mo;
      mo["usr"] = usrOf(m);
      mo["n"] = m->getNameAsString();
      mo["q"] = qual(m);
      mo["virt"] = m->isVirtual();
      mo["pure"] = m->isPureVirtual();
      mo["access"] = (int64_t)m->getAccess();
      mo["user"] = m->isUserProvided();
      Array ov;
      for (auto* x : m->overridden_methods()) ov.push_back(usrOf(x));
      mo["ov"] = std::move(ov);
      mo["np"] = (int64_t)m->getNumParams();
      ms.push_back(std::move(mo));
    }
    o["methods"] = std::move(ms);
    unsigned line; o["file"] = locStr(SM, R->getLocation(), &line); o["line"] = (int64_t)line;
    Records[q] = std::move(o);
    return true;
  }
  bool VisitEnumDecl(EnumDecl* E) {
    if (!E->isThisDeclarationADefinition() || !inRepo(SM, E->getLocation())) return true;
    Object o;
    Array cs;
    for (auto* c : E->enumerators()) {
      Object co; co["n"] = c->getNameAsString(); co["v"] = (int64_t)c->getInitVal().getExtValue();
      cs.push_back(std::move(co));
    }
    o["consts"] = std::move(cs);
    Enums[qual(E)] = std::move(o);
    return true;
  }
  bool VisitVarDecl(VarDecl* D) {
    if (!D->hasGlobalStorage() || D->getDeclContext()->isDependentContext() || isa<ParmVarDecl>(D)) return true;
    if (!inRepo(SM, D->getLocation())) return true;
    std::string u = usrOf(D);
    if (Globals.get(u)) return true;
    Object o;
    o["q"] = qual(D);
    o["t"] = typeObj(D->getType(), C);
    o["static"] = D->isStaticLocal();
    o["tls"] = D->getTLSKind() != VarDecl::TLS_None;
    unsigned line; o["file"] = locStr(SM, D->getLocation(), &line); o["line"] = (int64_t)line;
    if (D->getInit() && D->getType()->isConstantArrayType()) {
      if (auto* IL = dyn_cast<InitListExpr>(D->getInit())) {
        Array vals;
        for (auto* x : IL->inits()) {
          Expr::EvalResult R;
          if (!x->isValueDependent() && x->EvaluateAsInt(R, C)) vals.push_back((int64_t)R.Val.getInt().getExtValue());
          else vals.push_back(nullptr);
        }
        o["vals"] = std::move(vals);
      }
    }
    Globals[u] = std::move(o);
    return true;
  }
};

struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext& C) override { V(C).TraverseDecl(C.getTranslationUnitDecl()); }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override { return std::make_unique<Cons>(); }
};

int main(int argc, const char** argv) {
  // extract ROOT FILE... -- FLAGS...
  if (argc < 4) { llvm::errs() << "usage: extract ROOT FILE... -- FLAGS...\n"; return 2; }
  Root = argv[1];
  std::vector<std::string> files, flags;
  bool f = false;
  for (int i = 2; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--") { f = true; continue; }
    (f ? flags : files).push_back(a);
  }
  tooling::FixedCompilationDatabase DB(Root, flags);
  tooling::ClangTool T(DB, files);
  int rc = T.run(tooling::newFrontendActionFactory<Act>().get());
  if (rc) return 3;
  Object out;
  out["functions"] = std::move(Funcs);
  out["records"] = std::move(Records);
  out["enums"] = std::move(Enums);
  out["globals"] = std::move(Globals);
  llvm::outs() << Value(std::move(out)) << "\n";
  return 0;
}
