// sddx: a clang plugin that exports the type-checked program (resolved callees, instantiated
// templates, implicit members) of libsdd as one compact JSON document for the analyses in checks/.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendPluginRegistry.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;
namespace json = llvm::json;

namespace {

struct Exporter {
  ASTContext &C;
  SourceManager &SM;
  std::vector<std::string> roots;
  PrintingPolicy PP;

  std::map<const Decl *, int> fnIds;
  std::vector<json::Value> fns;
  std::vector<const FunctionDecl *> fnQueue;
  std::map<const Decl *, int> clsIds;
  std::vector<json::Value> classes;
  std::map<const Decl *, int> varIds;
  std::map<std::string, int> typeIds;
  std::vector<json::Value> types;
  std::map<std::string, int> fileIds;
  std::vector<json::Value> files;
  int nextVar = 0;

  Exporter(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true;
  }

  static const FunctionDecl *canon(const FunctionDecl *f) {
    const FunctionDecl *d = nullptr;
    if (f->hasBody(d)) return d;
    return f->getCanonicalDecl();
  }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L);
    return P.isValid() ? P.getFilename() : "";
  }
  unsigned lineOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L);
    return P.isValid() ? P.getLine() : 0;
  }
  unsigned colOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L);
    return P.isValid() ? P.getColumn() : 0;
  }
  bool inRoots(SourceLocation L) {
    auto f = fileOf(L);
    for (auto &r : roots)
      if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  int fileId(const std::string &f) {
    auto it = fileIds.find(f);
    if (it != fileIds.end()) return it->second;
    int id = files.size();
    files.push_back(f);
    fileIds[f] = id;
    return id;
  }
  int typeId(QualType T) {
    if (T.isNull()) return -1;
    std::string s = T.getCanonicalType().getAsString(PP);
    auto it = typeIds.find(s);
    if (it != typeIds.end()) return it->second;
    int id = types.size();
    types.push_back(s);
    typeIds[s] = id;
    return id;
  }
  std::string qname(const NamedDecl *D) {
    std::vector<std::string> parts;
    std::string n;
    if (auto *RD = dyn_cast<CXXRecordDecl>(D)) {
      if (RD->isLambda()) n = "lambda@" + std::to_string(lineOf(RD->getLocation()));
    }
    if (n.empty()) {
      if (isa<CXXConstructorDecl>(D)) n = "(ctor)";
      else if (isa<CXXDestructorDecl>(D)) n = "(dtor)";
      else if (isa<CXXConversionDecl>(D)) n = "(conv)";
      else n = D->getNameAsString();
    }
    if (n.empty()) n = "(anon)";
    parts.push_back(n);
    const DeclContext *DC = D->getDeclContext();
    while (DC && !DC->isTranslationUnit()) {
      if (auto *NS = dyn_cast<NamespaceDecl>(DC)) {
        if (!NS->isInline()) parts.push_back(NS->isAnonymousNamespace() ? "(anon)" : NS->getNameAsString());
      } else if (auto *RD = dyn_cast<CXXRecordDecl>(DC)) {
        if (RD->isLambda()) parts.push_back("lambda@" + std::to_string(lineOf(RD->getLocation())));
        else parts.push_back(RD->getNameAsString().empty() ? "(anon)" : RD->getNameAsString());
      } else if (auto *F = dyn_cast<FunctionDecl>(DC)) {
        parts.push_back((isa<CXXConstructorDecl>(F) ? std::string("(ctor)") : isa<CXXDestructorDecl>(F) ? std::string("(dtor)") : F->getNameAsString()) + "()");
      }
      DC = DC->getParent();
    }
    std::string r;
    for (auto it = parts.rbegin(); it != parts.rend(); ++it) {
      if (!r.empty()) r += "::";
      r += *it;
    }
    return r;
  }
  std::string targs(const TemplateArgumentList *L) {
    if (!L) return "";
    std::string s;
    llvm::raw_string_ostream os(s);
    printTemplateArgumentList(os, L->asArray(), PP);
    return os.str();
  }

  int clsId(const CXXRecordDecl *R) {
    if (!R) return -1;
    if (R->getDefinition()) R = R->getDefinition();
    R = cast<CXXRecordDecl>(R->getCanonicalDecl());
    const CXXRecordDecl *Def = R->getDefinition() ? R->getDefinition() : R;
    auto it = clsIds.find(R);
    if (it != clsIds.end()) return it->second;
    int id = classes.size();
    clsIds[R] = id;
    classes.push_back(nullptr);
    json::Object o;
    o["qn"] = qname(Def);
    if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(Def)) o["ta"] = targs(&S->getTemplateArgs());
    o["file"] = fileId(fileOf(Def->getLocation()));
    o["line"] = (int)lineOf(Def->getLocation());
    o["type"] = typeId(C.getRecordType(Def));
    bool mine = inRoots(Def->getLocation());
    o["mine"] = mine;
    o["lambda"] = Def->isLambda();
    o["union"] = Def->isUnion();
    if (mine && Def->isCompleteDefinition()) {
      json::Array fl;
      for (auto *F : Def->fields()) {
        json::Object fo;
        fo["n"] = F->getNameAsString();
        fo["t"] = typeId(F->getType());
        fo["mut"] = F->isMutable();
        fo["line"] = (int)lineOf(F->getLocation());
        fo["acc"] = (int)F->getAccess();
        fo["var"] = varId(F);
        if (F->hasInClassInitializer() && F->getInClassInitializer()) fo["init"] = expr(F->getInClassInitializer());
        if (auto *FR = F->getType().getNonReferenceType()->getAsCXXRecordDecl()) fo["cls"] = clsId(FR);
        fl.push_back(std::move(fo));
      }
      o["fields"] = std::move(fl);
      json::Array bs;
      for (auto &B : Def->bases()) {
        json::Object bo;
        bo["t"] = typeId(B.getType());
        bo["cls"] = clsId(B.getType()->getAsCXXRecordDecl());
        bs.push_back(std::move(bo));
      }
      o["bases"] = std::move(bs);
      json::Array ms;
      for (auto *M : Def->methods()) {
        json::Object mo;
        mo["n"] = isa<CXXConstructorDecl>(M) ? "(ctor)" : isa<CXXDestructorDecl>(M) ? "(dtor)" : M->getNameAsString();
        mo["acc"] = (int)M->getAccess();
        mo["const"] = M->isConst();
        mo["static"] = M->isStatic();
        mo["del"] = M->isDeleted();
        mo["def"] = M->isDefaulted();
        mo["line"] = (int)lineOf(M->getLocation());
        mo["rt"] = typeId(M->getReturnType());
        mo["refq"] = (int)M->getRefQualifier();
        if (auto *K = dyn_cast<CXXConstructorDecl>(M)) {
          mo["k"] = K->isCopyConstructor() ? "copy" : K->isMoveConstructor() ? "move" : K->isDefaultConstructor() ? "default" : "other";
        } else if (M->isCopyAssignmentOperator()) mo["k"] = "copyassign";
        else if (M->isMoveAssignmentOperator()) mo["k"] = "moveassign";
        json::Array pt;
        for (auto *P : M->parameters()) pt.push_back(typeId(P->getType()));
        mo["pt"] = std::move(pt);
        ms.push_back(std::move(mo));
      }
      o["methods"] = std::move(ms);
      json::Array fr;
      for (auto *F : Def->friends()) {
        if (auto *FD = F->getFriendDecl()) { json::Object fo; fo["n"]=qname(FD); fo["line"]=(int)lineOf(F->getLocation()); fr.push_back(std::move(fo)); }
        else if (auto *T = F->getFriendType()) { json::Object fo; fo["n"]=T->getType().getAsString(PP); fo["line"]=(int)lineOf(F->getLocation()); fr.push_back(std::move(fo)); }
      }
      o["friends"] = std::move(fr);
    }
    classes[id] = std::move(o);
    return id;
  }

  int varId(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = varIds.find(D);
    if (it != varIds.end()) return it->second;
    int id = nextVar++;
    varIds[D] = id;
    return id;
  }

  int fnId(const FunctionDecl *F) {
    F = canon(F);
    auto it = fnIds.find(F);
    if (it != fnIds.end()) return it->second;
    int id = fns.size();
    fnIds[F] = id;
    fns.push_back(nullptr);
    fnQueue.push_back(F);
    return id;
  }

  void drain() {
    while (!fnQueue.empty()) {
      auto *F = fnQueue.back();
      fnQueue.pop_back();
      int id = fnIds[F];
      fns[id] = fnRecord(F);
    }
  }

  json::Value fnRecord(const FunctionDecl *F) {
    json::Object o;
    o["qn"] = qname(F);
    o["file"] = fileId(fileOf(F->getLocation()));
    o["line"] = (int)lineOf(F->getLocation());
    o["col"] = (int)colOf(F->getLocation());
    bool mine = inRoots(F->getLocation());
    o["mine"] = mine;
    if (F->getTemplateSpecializationArgs()) o["ta"] = targs(F->getTemplateSpecializationArgs());
    o["rt"] = typeId(F->getReturnType());
    if (auto *RR = F->getReturnType().getNonReferenceType()->getAsCXXRecordDecl()) o["rc"] = clsId(RR);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = clsId(M->getParent());
      o["const"] = M->isConst();
      o["static"] = M->isStatic();
      o["virtual"] = M->isVirtual();
      o["acc"] = (int)M->getAccess();
    }
    o["kind"] = isa<CXXConstructorDecl>(F) ? "ctor" : isa<CXXDestructorDecl>(F) ? "dtor" : isa<CXXConversionDecl>(F) ? "conv" : isa<CXXMethodDecl>(F) ? "method" : "free";
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) o["ck"] = K->isCopyConstructor() ? "copy" : K->isMoveConstructor() ? "move" : K->isDefaultConstructor() ? "default" : "other";
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isCopyAssignmentOperator()) o["ck"] = "copyassign";
      if (M->isMoveAssignmentOperator()) o["ck"] = "moveassign";
    }
    o["deleted"] = F->isDeleted();
    o["defaulted"] = F->isDefaulted();
    o["implicit"] = F->isImplicit();
    o["noreturn"] = F->isNoReturn();
    o["variadic"] = F->isVariadic();
    if (auto *FPT = F->getType()->getAs<FunctionProtoType>()) {
      auto est = FPT->getExceptionSpecType();
      if (est != EST_Unevaluated && est != EST_Uninstantiated && est != EST_Unparsed && est != EST_DependentNoexcept)
        o["nothrow"] = FPT->isNothrow();
      else
        o["nothrow"] = nullptr;
    }
    json::Array ps;
    for (auto *P : F->parameters()) {
      json::Object po;
      po["v"] = varId(P);
      po["n"] = P->getNameAsString();
      po["t"] = typeId(P->getType());
      if (auto *RR = P->getType().getNonReferenceType()->getAsCXXRecordDecl()) po["cls"] = clsId(RR);
      ps.push_back(std::move(po));
    }
    o["params"] = std::move(ps);
    const FunctionDecl *Def = nullptr;
    if (mine && !F->isDependentContext() && F->hasBody(Def)) {
      if (auto *K = dyn_cast<CXXConstructorDecl>(Def)) {
        json::Array is;
        for (auto *I : K->inits()) {
          json::Object io;
          if (I->isAnyMemberInitializer()) {
            io["f"] = I->getAnyMember()->getNameAsString();
            io["t"] = typeId(I->getAnyMember()->getType());
            if (I->isInClassMemberInitializer()) io["inclass"] = true;
          } else if (I->isBaseInitializer()) {
            io["base"] = typeId(QualType(I->getBaseClass(), 0));
          } else if (I->isDelegatingInitializer()) io["deleg"] = true;
          io["l"] = (int)lineOf(I->getSourceLocation());
          io["e"] = expr(I->getInit());
          is.push_back(std::move(io));
        }
        o["inits"] = std::move(is);
      }
      o["body"] = stmt(Def->getBody());
      o["endline"] = (int)lineOf(Def->getBody()->getEndLoc());
    }
    return o;
  }

  json::Value nul() { return json::Value(nullptr); }

  json::Value stmt(const Stmt *S) {
    if (!S) return nul();
    if (auto *E = dyn_cast<Expr>(S)) {
      json::Object o;
      o["k"] = "expr";
      o["l"] = (int)lineOf(E->getBeginLoc());
      o["e"] = expr(E);
      return o;
    }
    json::Object o;
    o["l"] = (int)lineOf(S->getBeginLoc());
    switch (S->getStmtClass()) {
    case Stmt::CompoundStmtClass: {
      o["k"] = "block";
      json::Array a;
      for (auto *c : cast<CompoundStmt>(S)->body()) a.push_back(stmt(c));
      o["s"] = std::move(a);
      return o;
    }
    case Stmt::NullStmtClass: o["k"] = "null"; return o;
    case Stmt::IfStmtClass: {
      auto *I = cast<IfStmt>(S);
      o["k"] = "if";
      if (I->getInit()) o["init"] = stmt(I->getInit());
      if (I->getConditionVariable()) o["cv"] = varDecl(I->getConditionVariable());
      o["c"] = expr(I->getCond());
      o["t"] = stmt(I->getThen());
      o["e"] = stmt(I->getElse());
      return o;
    }
    case Stmt::WhileStmtClass: {
      auto *I = cast<WhileStmt>(S);
      o["k"] = "while";
      if (I->getConditionVariable()) o["cv"] = varDecl(I->getConditionVariable());
      o["c"] = expr(I->getCond());
      o["b"] = stmt(I->getBody());
      return o;
    }
    case Stmt::DoStmtClass: {
      auto *I = cast<DoStmt>(S);
      o["k"] = "do";
      o["c"] = expr(I->getCond());
      o["b"] = stmt(I->getBody());
      return o;
    }
    case Stmt::ForStmtClass: {
      auto *I = cast<ForStmt>(S);
      o["k"] = "for";
      o["init"] = stmt(I->getInit());
      if (I->getConditionVariable()) o["cv"] = varDecl(I->getConditionVariable());
      o["c"] = I->getCond() ? expr(I->getCond()) : nul();
      o["inc"] = I->getInc() ? expr(I->getInc()) : nul();
      o["b"] = stmt(I->getBody());
      return o;
    }
    case Stmt::CXXForRangeStmtClass: {
      auto *I = cast<CXXForRangeStmt>(S);
      o["k"] = "rfor";
      o["v"] = varDecl(I->getLoopVariable(), false);
      o["r"] = expr(I->getRangeInit());
      o["b"] = stmt(I->getBody());
      return o;
    }
    case Stmt::ReturnStmtClass: {
      auto *I = cast<ReturnStmt>(S);
      o["k"] = "ret";
      if (I->getRetValue()) o["e"] = expr(I->getRetValue());
      return o;
    }
    case Stmt::BreakStmtClass: o["k"] = "break"; return o;
    case Stmt::ContinueStmtClass: o["k"] = "continue"; return o;
    case Stmt::DeclStmtClass: {
      o["k"] = "decl";
      json::Array a;
      for (auto *D : cast<DeclStmt>(S)->decls())
        if (auto *V = dyn_cast<VarDecl>(D)) a.push_back(varDecl(V));
      o["d"] = std::move(a);
      return o;
    }
    case Stmt::CXXTryStmtClass: {
      auto *T = cast<CXXTryStmt>(S);
      o["k"] = "try";
      o["b"] = stmt(T->getTryBlock());
      json::Array a;
      for (unsigned i = 0; i < T->getNumHandlers(); ++i) {
        auto *H = T->getHandler(i);
        json::Object h;
        h["l"] = (int)lineOf(H->getBeginLoc());
        if (H->getExceptionDecl()) { h["v"] = varId(H->getExceptionDecl()); h["t"] = typeId(H->getCaughtType()); }
        h["b"] = stmt(H->getHandlerBlock());
        a.push_back(std::move(h));
      }
      o["h"] = std::move(a);
      return o;
    }
    case Stmt::SwitchStmtClass: {
      auto *W = cast<SwitchStmt>(S);
      o["k"] = "switch";
      o["c"] = expr(W->getCond());
      o["b"] = stmt(W->getBody());
      return o;
    }
    case Stmt::CaseStmtClass: {
      auto *K = cast<CaseStmt>(S);
      o["k"] = "case";
      o["c"] = expr(K->getLHS());
      o["s"] = stmt(K->getSubStmt());
      return o;
    }
    case Stmt::DefaultStmtClass:
      o["k"] = "default";
      o["s"] = stmt(cast<DefaultStmt>(S)->getSubStmt());
      return o;
    case Stmt::GotoStmtClass:
      o["k"] = "goto";
      o["n"] = cast<GotoStmt>(S)->getLabel()->getNameAsString();
      return o;
    case Stmt::LabelStmtClass:
      o["k"] = "label";
      o["n"] = cast<LabelStmt>(S)->getDecl()->getNameAsString();
      o["s"] = stmt(cast<LabelStmt>(S)->getSubStmt());
      return o;
    case Stmt::AttributedStmtClass:
      return stmt(cast<AttributedStmt>(S)->getSubStmt());
    default:
      o["k"] = "unk";
      o["c"] = S->getStmtClassName();
      return o;
    }
  }

  json::Value varDecl(const VarDecl *V, bool withInit = true) {
    json::Object o;
    o["v"] = varId(V);
    o["n"] = V->getNameAsString();
    o["t"] = typeId(V->getType());
    o["ref"] = V->getType()->isReferenceType();
    o["static"] = V->isStaticLocal();
    o["l"] = (int)lineOf(V->getLocation());
    if (auto *RR = V->getType().getNonReferenceType()->getAsCXXRecordDecl()) o["cls"] = clsId(RR);
    if (withInit && V->getInit()) o["e"] = expr(V->getInit());
    return o;
  }

  json::Array exprs(llvm::ArrayRef<const Expr *> A) {
    json::Array a;
    for (auto *e : A) a.push_back(expr(e));
    return a;
  }

  json::Value expr(const Expr *E) {
    if (!E) return nul();
    // Strip nodes that carry no meaning for the analyses.
    for (;;) {
      if (auto *X = dyn_cast<ParenExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<ExprWithCleanups>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = X->getReplacement(); continue; }
      if (auto *X = dyn_cast<ConstantExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) { E = X->getExpr(); continue; }
      if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) { E = X->getExpr(); continue; }
      if (auto *X = dyn_cast<OpaqueValueExpr>(E)) { if (X->getSourceExpr()) { E = X->getSourceExpr(); continue; } }
      if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
        auto ck = X->getCastKind();
        if (ck == CK_IntegralCast || ck == CK_FloatingToIntegral || ck == CK_IntegralToFloating) break;
        E = X->getSubExpr();
        continue;
      }
      break;
    }
    json::Object o;
    o["l"] = (int)lineOf(E->getExprLoc());
    auto setT = [&] { o["t"] = typeId(E->getType()); };
    switch (E->getStmtClass()) {
    case Stmt::ImplicitCastExprClass: {
      auto *X = cast<ImplicitCastExpr>(E);
      o["k"] = "icast";
      setT();
      o["ft"] = typeId(X->getSubExpr()->getType());
      o["e"] = expr(X->getSubExpr());
      return o;
    }
    case Stmt::DeclRefExprClass: {
      auto *D = cast<DeclRefExpr>(E)->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { o["k"] = "fref"; o["f"] = fnId(F); return o; }
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        o["k"] = "enum"; o["n"] = qname(EC); setT();
        o["v"] = llvm::toString(EC->getInitVal(), 10);
        return o;
      }
      if (auto *V = dyn_cast<VarDecl>(D)) {
        o["k"] = "var"; o["v"] = varId(V); o["n"] = V->getNameAsString(); setT();
        o["ref"] = V->getType()->isReferenceType();
        if (V->isStaticDataMember() || (!V->isLocalVarDeclOrParm())) {
          o["global"] = qname(V);
          if (V->getType().isConstQualified() && V->getAnyInitializer() && !V->getAnyInitializer()->isValueDependent() && V->getType()->isIntegralOrEnumerationType()) {
            Expr::EvalResult R;
            if (V->getAnyInitializer()->EvaluateAsInt(R, C)) o["cval"] = llvm::toString(R.Val.getInt(), 10);
          }
        }
        return o;
      }
      o["k"] = "var"; o["v"] = varId(D); o["n"] = D->getNameAsString(); setT();
      return o;
    }
    case Stmt::MemberExprClass: {
      auto *M = cast<MemberExpr>(E);
      if (auto *F = dyn_cast<CXXMethodDecl>(M->getMemberDecl())) {
        o["k"] = "mref"; o["f"] = fnId(F); o["b"] = expr(M->getBase()); return o;
      }
      if (auto *V = dyn_cast<VarDecl>(M->getMemberDecl())) {
        o["k"] = "var"; o["v"] = varId(V); o["n"] = V->getNameAsString(); o["global"] = qname(V); setT();
        return o;
      }
      o["k"] = "mem";
      o["n"] = M->getMemberDecl()->getNameAsString();
      o["arrow"] = M->isArrow();
      if (auto *FD = dyn_cast<FieldDecl>(M->getMemberDecl())) {
        o["cls"] = clsId(dyn_cast<CXXRecordDecl>(FD->getParent()));
        o["ref"] = FD->getType()->isReferenceType();
        o["var"] = varId(FD);
      }
      setT();
      o["b"] = expr(M->getBase());
      return o;
    }
    case Stmt::CXXThisExprClass: o["k"] = "this"; return o;
    case Stmt::CXXMemberCallExprClass: {
      auto *X = cast<CXXMemberCallExpr>(E);
      o["k"] = "call";
      setT();
      if (auto *F = X->getMethodDecl()) o["f"] = fnId(F);
      else o["fe"] = expr(X->getCallee());
      if (X->getImplicitObjectArgument()) {
        o["o"] = expr(X->getImplicitObjectArgument());
        if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) o["arrow"] = ME->isArrow();
      }
      json::Array a;
      for (auto *x : X->arguments()) a.push_back(expr(x));
      o["a"] = std::move(a);
      return o;
    }
    case Stmt::CXXOperatorCallExprClass: {
      auto *X = cast<CXXOperatorCallExpr>(E);
      o["k"] = "call";
      setT();
      o["op"] = getOperatorSpelling(X->getOperator());
      auto *F = X->getDirectCallee();
      json::Array a;
      unsigned i = 0;
      if (F) {
        o["f"] = fnId(F);
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (!M->isStatic()) { o["o"] = expr(X->getArg(0)); i = 1; }
      } else o["fe"] = expr(X->getCallee());
      for (; i < X->getNumArgs(); ++i) a.push_back(expr(X->getArg(i)));
      o["a"] = std::move(a);
      return o;
    }
    case Stmt::CallExprClass:
    case Stmt::UserDefinedLiteralClass: {
      auto *X = cast<CallExpr>(E);
      o["k"] = "call";
      setT();
      if (auto *F = X->getDirectCallee()) o["f"] = fnId(F);
      else o["fe"] = expr(X->getCallee());
      json::Array a;
      for (auto *x : X->arguments()) a.push_back(expr(x));
      o["a"] = std::move(a);
      return o;
    }
    case Stmt::CXXConstructExprClass:
    case Stmt::CXXTemporaryObjectExprClass: {
      auto *X = cast<CXXConstructExpr>(E);
      o["k"] = "ctor";
      setT();
      o["f"] = fnId(X->getConstructor());
      o["cls"] = clsId(X->getConstructor()->getParent());
      o["ck"] = X->getConstructor()->isCopyConstructor() ? "copy" : X->getConstructor()->isMoveConstructor() ? "move" : "other";
      if (X->isElidable()) o["elid"] = true;
      json::Array a;
      for (unsigned i = 0; i < X->getNumArgs(); ++i) a.push_back(expr(X->getArg(i)));
      o["a"] = std::move(a);
      return o;
    }
    case Stmt::CXXInheritedCtorInitExprClass: o["k"] = "unk"; o["c"] = "inhctor"; return o;
    case Stmt::CXXNewExprClass: {
      auto *X = cast<CXXNewExpr>(E);
      o["k"] = "new";
      setT();
      o["at"] = typeId(X->getAllocatedType());
      if (auto *RR = X->getAllocatedType()->getAsCXXRecordDecl()) o["cls"] = clsId(RR);
      json::Array a;
      for (unsigned i = 0; i < X->getNumPlacementArgs(); ++i) a.push_back(expr(X->getPlacementArg(i)));
      o["p"] = std::move(a);
      o["array"] = X->isArray();
      if (X->isArray() && X->getArraySize()) o["n"] = expr(*X->getArraySize());
      if (X->getInitializer()) o["i"] = expr(X->getInitializer());
      else if (X->getConstructExpr()) o["i"] = expr(X->getConstructExpr());
      return o;
    }
    case Stmt::CXXDeleteExprClass: {
      auto *X = cast<CXXDeleteExpr>(E);
      o["k"] = "delete";
      o["array"] = X->isArrayForm();
      o["dt"] = typeId(X->getDestroyedType());
      o["e"] = expr(X->getArgument());
      return o;
    }
    case Stmt::CXXPseudoDestructorExprClass: {
      o["k"] = "pdtor";
      o["b"] = expr(cast<CXXPseudoDestructorExpr>(E)->getBase());
      return o;
    }
    case Stmt::LambdaExprClass: {
      auto *X = cast<LambdaExpr>(E);
      o["k"] = "lambda";
      o["cls"] = clsId(X->getLambdaClass());
      json::Array cs;
      auto init = X->capture_init_begin();
      for (auto &c : X->captures()) {
        json::Object co;
        co["this"] = c.capturesThis();
        co["byref"] = c.getCaptureKind() == LCK_ByRef;
        if (c.capturesVariable()) { co["v"] = varId(c.getCapturedVar()); co["n"] = c.getCapturedVar()->getNameAsString(); }
        if (*init) co["e"] = expr(*init);
        ++init;
        cs.push_back(std::move(co));
      }
      o["cap"] = std::move(cs);
      json::Array ops;
      if (auto *FT = X->getDependentCallOperator()) {
        for (auto *S : FT->specializations()) ops.push_back(fnId(S));
      } else ops.push_back(fnId(X->getCallOperator()));
      o["ops"] = std::move(ops);
      return o;
    }
    case Stmt::UnaryOperatorClass: {
      auto *X = cast<UnaryOperator>(E);
      o["k"] = "un";
      o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      o["post"] = X->isPostfix();
      setT();
      o["e"] = expr(X->getSubExpr());
      return o;
    }
    case Stmt::BinaryOperatorClass:
    case Stmt::CompoundAssignOperatorClass: {
      auto *X = cast<BinaryOperator>(E);
      o["k"] = "bin";
      o["op"] = X->getOpcodeStr().str();
      setT();
      o["x"] = expr(X->getLHS());
      o["y"] = expr(X->getRHS());
      return o;
    }
    case Stmt::ConditionalOperatorClass: {
      auto *X = cast<ConditionalOperator>(E);
      o["k"] = "cond";
      setT();
      o["c"] = expr(X->getCond());
      o["x"] = expr(X->getTrueExpr());
      o["y"] = expr(X->getFalseExpr());
      return o;
    }
    case Stmt::ArraySubscriptExprClass: {
      auto *X = cast<ArraySubscriptExpr>(E);
      o["k"] = "idx";
      setT();
      o["b"] = expr(X->getBase());
      o["i"] = expr(X->getIdx());
      return o;
    }
    case Stmt::IntegerLiteralClass: o["k"] = "int"; o["v"] = llvm::toString(cast<IntegerLiteral>(E)->getValue(), 10, false); setT(); return o;
    case Stmt::CXXBoolLiteralExprClass: o["k"] = "bool"; o["v"] = cast<CXXBoolLiteralExpr>(E)->getValue(); return o;
    case Stmt::CharacterLiteralClass: o["k"] = "int"; o["v"] = std::to_string(cast<CharacterLiteral>(E)->getValue()); setT(); return o;
    case Stmt::FloatingLiteralClass: { llvm::SmallString<32> s; cast<FloatingLiteral>(E)->getValue().toString(s); o["k"] = "float"; o["v"] = s.str().str(); setT(); return o; }
    case Stmt::StringLiteralClass: o["k"] = "str"; o["v"] = json::fixUTF8(cast<StringLiteral>(E)->getBytes()); return o;
    case Stmt::CXXNullPtrLiteralExprClass:
    case Stmt::GNUNullExprClass: o["k"] = "null"; return o;
    case Stmt::InitListExprClass: {
      auto *X = cast<InitListExpr>(E);
      if (X->isSemanticForm() || !X->getSemanticForm()) {} else X = X->getSemanticForm();
      o["k"] = "ilist";
      setT();
      if (auto *RR = X->getType()->getAsCXXRecordDecl()) o["cls"] = clsId(RR);
      json::Array a;
      for (auto *x : X->inits()) a.push_back(expr(x));
      o["a"] = std::move(a);
      return o;
    }
    case Stmt::CXXStdInitializerListExprClass: {
      o["k"] = "stdilist"; setT();
      o["e"] = expr(cast<CXXStdInitializerListExpr>(E)->getSubExpr());
      return o;
    }
    case Stmt::ImplicitValueInitExprClass:
    case Stmt::CXXScalarValueInitExprClass: o["k"] = "zero"; setT(); return o;
    case Stmt::CStyleCastExprClass:
    case Stmt::CXXFunctionalCastExprClass:
    case Stmt::CXXStaticCastExprClass:
    case Stmt::CXXReinterpretCastExprClass:
    case Stmt::CXXConstCastExprClass:
    case Stmt::CXXDynamicCastExprClass: {
      auto *X = cast<ExplicitCastExpr>(E);
      if (X->getCastKind() == CK_ConstructorConversion || X->getCastKind() == CK_UserDefinedConversion)
        return expr(X->getSubExpr());
      o["k"] = "cast";
      o["c"] = X->getCastKindName();
      o["s"] = E->getStmtClassName();
      setT();
      o["ft"] = typeId(X->getSubExpr()->getType());
      o["e"] = expr(X->getSubExpr());
      return o;
    }
    case Stmt::UnaryExprOrTypeTraitExprClass: {
      auto *X = cast<UnaryExprOrTypeTraitExpr>(E);
      o["k"] = "sizeof";
      o["w"] = X->getKind() == UETT_SizeOf ? "sizeof" : "alignof";
      o["at"] = typeId(X->getTypeOfArgument());
      Expr::EvalResult R;
      if (!E->isValueDependent() && E->EvaluateAsInt(R, C)) o["v"] = llvm::toString(R.Val.getInt(), 10);
      return o;
    }
    case Stmt::CXXThrowExprClass: {
      auto *X = cast<CXXThrowExpr>(E);
      o["k"] = "throw";
      if (X->getSubExpr()) { o["e"] = expr(X->getSubExpr()); o["t"] = typeId(X->getSubExpr()->getType()); }
      return o;
    }
    case Stmt::CXXNoexceptExprClass: o["k"] = "bool"; o["v"] = cast<CXXNoexceptExpr>(E)->getValue(); return o;
    case Stmt::TypeTraitExprClass: o["k"] = "bool"; o["v"] = cast<TypeTraitExpr>(E)->getValue(); return o;
    case Stmt::SizeOfPackExprClass: o["k"] = "int"; o["v"] = std::to_string(cast<SizeOfPackExpr>(E)->getPackLength()); setT(); return o;
    case Stmt::PredefinedExprClass: o["k"] = "str"; o["v"] = "__func__"; return o;
    case Stmt::CXXTypeidExprClass: {
      auto *X = cast<CXXTypeidExpr>(E);
      o["k"] = "typeid";
      if (X->isTypeOperand()) o["ot"] = typeId(X->getTypeOperand(C)); else o["e"] = expr(X->getExprOperand());
      return o;
    }
    default:
      o["k"] = "unk";
      o["c"] = E->getStmtClassName();
      return o;
    }
  }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
  Exporter &X;
  std::set<std::string> uninst;
  Visitor(Exporter &x) : X(x) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isDependentContext()) return true;
    if (!X.inRoots(F->getLocation())) return true;
    if (!F->doesThisDeclarationHaveABody() && !F->isDeleted()) return true;
    X.fnId(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (R->isDependentContext() || !R->isCompleteDefinition()) return true;
    if (!X.inRoots(R->getLocation())) return true;
    X.clsId(R);
    return true;
  }
};

// Function template patterns and member patterns: used to report what has no instantiation.
struct Patterns : RecursiveASTVisitor<Patterns> {
  Exporter &X;
  json::Array out;
  Patterns(Exporter &x) : X(x) {}
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!X.inRoots(F->getLocation()) || !F->doesThisDeclarationHaveABody()) return true;
    json::Object o;
    o["qn"] = X.qname(F);
    o["file"] = X.fileId(X.fileOf(F->getLocation()));
    o["line"] = (int)X.lineOf(F->getLocation());
    o["col"] = (int)X.colOf(F->getLocation());
    out.push_back(std::move(o));
    return true;
  }
};

struct Consumer : ASTConsumer {
  std::string outFile;
  std::vector<std::string> roots;
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Exporter X(C);
    X.roots = roots;
    Visitor V(X);
    V.TraverseDecl(C.getTranslationUnitDecl());
    X.drain();
    Patterns P(X);
    P.TraverseDecl(C.getTranslationUnitDecl());
    json::Object o;
    json::Array f, c, t, fl;
    for (auto &v : X.fns) f.push_back(std::move(v));
    for (auto &v : X.classes) c.push_back(std::move(v));
    for (auto &v : X.types) t.push_back(std::move(v));
    for (auto &v : X.files) fl.push_back(std::move(v));
    o["fns"] = std::move(f);
    o["classes"] = std::move(c);
    o["types"] = std::move(t);
    o["files"] = std::move(fl);
    o["patterns"] = std::move(P.out);
    std::error_code ec;
    llvm::raw_fd_ostream os(outFile, ec);
    os << json::Value(std::move(o));
  }
};

struct Action : PluginASTAction {
  std::string out;
  std::vector<std::string> roots;
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override {
    auto c = std::make_unique<Consumer>();
    c->outFile = out;
    c->roots = roots;
    return c;
  }
  bool ParseArgs(const CompilerInstance &, const std::vector<std::string> &a) override {
    for (auto &s : a) {
      if (s.compare(0, 4, "out=") == 0) out = s.substr(4);
      if (s.compare(0, 5, "root=") == 0) roots.push_back(s.substr(5));
    }
    return true;
  }
};
}
static FrontendPluginRegistry::Add<Action> R("sddx", "export libsdd");
