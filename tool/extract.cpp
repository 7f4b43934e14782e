// Front end of the static analyser: parses one translation unit of the repository with the real
// compiler front end (clang 18) and writes the *resolved* program (classes, overriding relations, every
// function body incl. template instantiations, with callees and types resolved) as JSON.
// It takes no decision: all rules live in the Python engine.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/Attr.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
using namespace clang;
namespace json = llvm::json;

static std::string RepoRoot, ExtraRoot, OutPath;

struct Emitter {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<std::string, int> typeIdx;
  json::Array types;
  std::map<const Decl *, int> declIdx;
  std::map<int, std::string> usrCache;
  std::set<std::string> doneFns;
  std::set<std::string> doneCls;
  std::set<std::string> doneGlobals;
  json::Array fns, classes, globals;

  Emitter(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.SuppressUnwrittenScope = true;
    PP.AnonymousTagLocations = false;
    PP.PrintCanonicalTypes = true;
    PP.SuppressDefaultTemplateArgs = true;
    PP.SuppressInlineNamespace = true;
  }
  int ty(QualType T) {
    if (T.isNull()) return -1;
    std::string s = T.getCanonicalType().getAsString(PP);
    auto it = typeIdx.find(s);
    if (it != typeIdx.end()) return it->second;
    int i = types.size();
    typeIdx[s] = i;
    types.push_back(s);
    return i;
  }
  int did(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = declIdx.find(D);
    if (it != declIdx.end()) return it->second;
    int i = declIdx.size() + 1;
    declIdx[D] = i;
    return i;
  }
  std::string usr(const Decl *D) {
    llvm::SmallString<256> B;
    if (index::generateUSRForDecl(D, B)) return "nousr:" + std::to_string(did(D));
    return std::string(B.str());
  }
  std::string qn(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    D->printNestedNameSpecifier(os, PP);
    D->getDeclName().print(os, PP);
    os.flush();
    return s;
  }
  std::string clsName(const CXXRecordDecl *R) {
    QualType T = C.getTypeDeclType(R);
    return T.getCanonicalType().getAsString(PP);
  }
  bool inRepoLoc(SourceLocation L) {
    if (L.isInvalid()) return false;
    L = SM.getExpansionLoc(L);
    StringRef f = SM.getFilename(L);
    std::string s = f.str();
    if (s.empty()) return false;
    if (s[0] != '/') {
      llvm::SmallString<256> P(s);
      SM.getFileManager().makeAbsolutePath(P);
      s = P.str().str();
    }
    if (!ExtraRoot.empty() && s.compare(0, ExtraRoot.size(), ExtraRoot) == 0) return true;
    if (s.compare(0, RepoRoot.size(), RepoRoot) != 0) return false;
    if (s.find("/external/") != std::string::npos) return false;
    return true;
  }
  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    std::string s = SM.getFilename(L).str();
    // normalise a/../b
    llvm::SmallString<256> P(s);
    SM.getFileManager().makeAbsolutePath(P);
    llvm::sys::path::remove_dots(P, true);
    s = P.str().str();
    if (s.compare(0, RepoRoot.size(), RepoRoot) == 0) s = s.substr(RepoRoot.size());
    return s;
  }
  int lineOf(SourceLocation L) { return SM.getExpansionLineNumber(L); }

  json::Object node(const char *k, const Stmt *S) {
    json::Object o;
    o["k"] = k;
    if (S) o["l"] = lineOf(S->getBeginLoc());
    return o;
  }

  json::Value fnRef(const FunctionDecl *F) {
    json::Object o;
    o["u"] = usr(F);
    o["q"] = qn(F);
    o["n"] = F->getNameAsString();
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["c"] = clsName(M->getParent());
      if (M->isVirtual()) o["v"] = 1;
      if (M->isStatic()) o["st"] = 1;
      if (M->isConst()) o["cst"] = 1;
      if (isa<CXXConstructorDecl>(F)) {
        o["ctor"] = 1;
        auto *CD = cast<CXXConstructorDecl>(F);
        if (CD->isCopyOrMoveConstructor()) o["copy"] = 1;
        if (CD->isDefaultConstructor()) o["dflt"] = 1;
      }
      if (M->getParent()->isLambda()) o["lam"] = 1;
      if (M->isCopyAssignmentOperator() || M->isMoveAssignmentOperator()) o["copy"] = 1;
    }
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      json::Array a;
      for (auto &x : TA->asArray()) {
        if (x.getKind() == TemplateArgument::Type) a.push_back(x.getAsType().getCanonicalType().getAsString(PP));
        else if (x.getKind() == TemplateArgument::Integral) { llvm::SmallString<16> n; x.getAsIntegral().toString(n, 10); a.push_back(n.str().str()); }
        else if (x.getKind() == TemplateArgument::Pack) {
          for (auto &y : x.pack_elements())
            if (y.getKind() == TemplateArgument::Type) a.push_back(y.getAsType().getCanonicalType().getAsString(PP));
        }
      }
      o["ta"] = std::move(a);
    }
    // parameter passing modes
    json::Array pm;
    for (auto *P : F->parameters()) {
      QualType T = P->getType();
      if (T->isRValueReferenceType()) pm.push_back("rr");
      else if (T->isReferenceType()) pm.push_back(T.getNonReferenceType().isConstQualified() ? "cr" : "r");
      else pm.push_back("v");
    }
    o["pm"] = std::move(pm);
    QualType RT = F->getReturnType();
    o["rt"] = ty(RT);
    if (RT->isReferenceType()) o["rr"] = 1;
    return std::move(o);
  }

  json::Value exprs(llvm::ArrayRef<const Expr *> es) {
    json::Array a;
    for (auto *e : es) a.push_back(expr(e));
    return std::move(a);
  }
  template <class R> json::Value exprsR(R r) {
    json::Array a;
    for (auto *e : r) a.push_back(expr(e));
    return std::move(a);
  }

  json::Value expr(const Expr *E) {
    if (!E) return nullptr;
    // transparent wrappers
    if (auto *X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<FullExpr>(E)) {
      if (isa<ExprWithCleanups>(E)) { return expr(X->getSubExpr()); }
      return expr(X->getSubExpr());
    }
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) {
      json::Object o = node("temp", E);
      o["e"] = expr(X->getSubExpr());
      o["t"] = ty(E->getType());
      if (X->getExtendingDecl()) o["ext"] = 1;
      return std::move(o);
    }
    if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) return expr(X->getSemanticForm());
    if (auto *X = dyn_cast<OpaqueValueExpr>(E)) return expr(X->getSourceExpr());

    if (auto *X = dyn_cast<CastExpr>(E)) {
      switch (X->getCastKind()) {
      case CK_LValueToRValue: {
        json::Object o = node("load", E);
        o["e"] = expr(X->getSubExpr());
        o["t"] = ty(E->getType());
        return std::move(o);
      }
      case CK_NoOp: case CK_UncheckedDerivedToBase: case CK_DerivedToBase: case CK_ArrayToPointerDecay:
      case CK_FunctionToPointerDecay: case CK_ConstructorConversion: case CK_UserDefinedConversion:
      case CK_LValueBitCast: case CK_BuiltinFnToFnPtr: case CK_BitCast: case CK_BaseToDerived: {
        json::Value s = expr(X->getSubExpr());
        if (isa<ExplicitCastExpr>(E) || X->getCastKind() == CK_BaseToDerived) {
          json::Object o = node("cast", E);
          o["ck"] = X->getCastKindName();
          o["t"] = ty(E->getType());
          if (isa<CXXConstCastExpr>(E)) o["cc"] = 1;
          o["e"] = std::move(s);
          return std::move(o);
        }
        return s;
      }
      default: {
        json::Object o = node("cast", E);
        o["ck"] = X->getCastKindName();
        o["t"] = ty(E->getType());
        o["ft"] = ty(X->getSubExpr()->getType());
        if (X->getCastKind() == CK_Dynamic) o["gl"] = E->isGLValue() ? 1 : 0;
        o["e"] = expr(X->getSubExpr());
        return std::move(o);
      }
      }
    }
    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      json::Object o = node("int", nullptr);
      llvm::SmallString<32> s;
      X->getValue().toString(s, 10, X->getType()->isSignedIntegerType());
      o["v"] = s.str().str();
      return std::move(o);
    }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      json::Object o = node("float", nullptr);
      llvm::SmallString<32> s;
      X->getValue().toString(s, 25);
      o["v"] = s.str().str();
      return std::move(o);
    }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { json::Object o = node("bool", nullptr); o["v"] = X->getValue(); return std::move(o); }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) { json::Object o = node("int", nullptr); o["v"] = std::to_string(X->getValue()); o["ch"]=1; return std::move(o); }
    if (auto *X = dyn_cast<StringLiteral>(E)) { json::Object o = node("str", nullptr); 
      std::string v = X->isOrdinary() ? X->getString().str() : std::string("?wide");
      if (!json::isUTF8(v)) v = json::fixUTF8(v);
      o["v"] = v; return std::move(o); }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return node("null", nullptr);
    if (isa<CXXThisExpr>(E)) { json::Object o = node("this", nullptr); o["t"] = ty(E->getType()); return std::move(o); }
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        json::Object o = node("fn", E);
        o["f"] = fnRef(F);
        return std::move(o);
      }
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        json::Object o = node("int", nullptr);
        llvm::SmallString<32> s; EC->getInitVal().toString(s, 10);
        o["v"] = s.str().str();
        return std::move(o);
      }
      json::Object o = node("var", E);
      o["n"] = D->getNameAsString();
      o["t"] = ty(D->getType());
      if (D->getType()->isReferenceType()) o["ref"] = 1;
      if (auto *V = dyn_cast<VarDecl>(D)) {
        if (V->hasGlobalStorage()) {
          o["g"] = usr(V);
          o["q"] = qn(V);
          emitGlobal(V);
        }
      }
      if (auto *B = dyn_cast<BindingDecl>(D)) { o["bind"] = 1; }
      if (X->refersToEnclosingVariableOrCapture()) o["cap"] = 1;
      o["d"] = did(D);
      return std::move(o);
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *D = X->getMemberDecl();
      if (auto *F = dyn_cast<FieldDecl>(D)) {
        json::Object o = node("mem", E);
        o["b"] = expr(X->getBase());
        o["arrow"] = X->isArrow() ? 1 : 0;
        o["n"] = F->getNameAsString();
        o["c"] = clsName(cast<CXXRecordDecl>(F->getParent()));
        o["t"] = ty(F->getType());
        if (F->getType()->isReferenceType()) o["ref"] = 1;
        if (F->isMutable()) o["mut"] = 1;
        return std::move(o);
      }
      if (auto *V = dyn_cast<VarDecl>(D)) {
        json::Object o = node("var", E);
        o["n"] = V->getNameAsString(); o["t"] = ty(V->getType()); o["g"] = usr(V); o["q"] = qn(V); o["d"] = did(V);
        emitGlobal(V);
        return std::move(o);
      }
      if (auto *M = dyn_cast<CXXMethodDecl>(D)) {
        json::Object o = node("mfn", E);
        o["b"] = expr(X->getBase());
        o["arrow"] = X->isArrow() ? 1 : 0;
        o["f"] = fnRef(M);
        return std::move(o);
      }
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      json::Object o = node("mcall", E);
      const CXXMethodDecl *M = X->getMethodDecl();
      const Expr *Callee = X->getCallee()->IgnoreParens();
      if (M) {
        o["f"] = fnRef(M);
        const Expr *Obj = X->getImplicitObjectArgument();
        o["o"] = expr(Obj);
        if (auto *ME = dyn_cast<MemberExpr>(Callee)) {
          o["arrow"] = ME->isArrow() ? 1 : 0;
          if (M->isVirtual() && (ME->hasQualifier())) o["qual"] = 1;
        }
        o["ot"] = ty(Obj->getType());
      } else {
        o["k"] = "icall";
        o["fn"] = expr(Callee);
      }
      o["a"] = exprsR(X->arguments());
      o["t"] = ty(E->getType());
      return std::move(o);
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      json::Object o = node("opcall", E);
      o["op"] = getOperatorSpelling(X->getOperator());
      if (auto *F = X->getDirectCallee()) o["f"] = fnRef(F);
      o["a"] = exprsR(X->arguments());
      o["t"] = ty(E->getType());
      return std::move(o);
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      json::Object o = node("call", E);
      if (auto *F = X->getDirectCallee()) o["f"] = fnRef(F);
      else { o["k"] = "icall"; o["fn"] = expr(X->getCallee()); }
      o["a"] = exprsR(X->arguments());
      o["t"] = ty(E->getType());
      return std::move(o);
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      json::Object o = node("ctor", E);
      o["f"] = fnRef(X->getConstructor());
      o["t"] = ty(E->getType());
      o["a"] = exprsR(X->arguments());
      if (X->isElidable()) o["elide"] = 1;
      if (X->isListInitialization()) o["list"] = 1;
      if (X->requiresZeroInitialization()) o["zero"] = 1;
      return std::move(o);
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      json::Object o = node("ctor", E); o["f"] = fnRef(X->getConstructor()); o["t"] = ty(E->getType()); o["a"] = json::Array(); o["inh"]=1; return std::move(o);
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      json::Object o = node(X->isCompoundAssignmentOp() ? "cassign" : X->isAssignmentOp() ? "assign" : "bin", E);
      std::string op = X->getOpcodeStr().str();
      o["op"] = op;
      o["a"] = expr(X->getLHS());
      o["b"] = expr(X->getRHS());
      o["t"] = ty(E->getType());
      o["lt"] = ty(X->getLHS()->getType());
      if (auto *CA = dyn_cast<CompoundAssignOperator>(E)) o["ct"] = ty(CA->getComputationResultType());
      return std::move(o);
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      json::Object o = node("un", E);
      o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) o["post"] = 1;
      o["e"] = expr(X->getSubExpr());
      o["t"] = ty(E->getType());
      return std::move(o);
    }
    if (auto *X = dyn_cast<AbstractConditionalOperator>(E)) {
      json::Object o = node("cond", E);
      o["c"] = expr(X->getCond());
      o["a"] = expr(X->getTrueExpr());
      o["b"] = expr(X->getFalseExpr());
      o["t"] = ty(E->getType());
      o["gl"] = E->isGLValue() ? 1 : 0;
      return std::move(o);
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      json::Object o = node("idx", E);
      o["a"] = expr(X->getBase());
      o["b"] = expr(X->getIdx());
      return std::move(o);
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      json::Object o = node("new", E);
      o["t"] = ty(X->getAllocatedType());
      o["i"] = X->getInitializer() ? expr(X->getInitializer()) : json::Value(nullptr);
      return std::move(o);
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { json::Object o = node("delete", E); o["e"] = expr(X->getArgument()); return std::move(o); }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      json::Object o = node("throw", E);
      if (X->getSubExpr()) o["e"] = expr(X->getSubExpr());
      return std::move(o);
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      const InitListExpr *S = X->isSemanticForm() ? X : (X->getSemanticForm() ? X->getSemanticForm() : X);
      json::Object o = node("ilist", E);
      o["t"] = ty(E->getType());
      o["a"] = exprsR(S->inits());
      return std::move(o);
    }
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) {
      json::Object o = node("zero", E);
      o["t"] = ty(E->getType());
      return std::move(o);
    }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      json::Object o = node("lambda", E);
      json::Array caps;
      auto ci = X->capture_init_begin();
      for (auto &Cap : X->captures()) {
        json::Object c;
        if (Cap.capturesThis()) { c["this"] = 1; if (Cap.getCaptureKind() == LCK_StarThis) c["copy"] = 1; }
        else if (Cap.capturesVariable()) {
          c["d"] = did(Cap.getCapturedVar());
          c["n"] = Cap.getCapturedVar()->getNameAsString();
          c["ref"] = Cap.getCaptureKind() == LCK_ByRef ? 1 : 0;
          if (ci != X->capture_init_end() && *ci) c["i"] = expr(*ci);
          if (auto *VD = dyn_cast<VarDecl>(Cap.getCapturedVar())) if (VD->isInitCapture()) { c["init"] = 1; c["i"] = expr(VD->getInit()); }
        }
        if (ci != X->capture_init_end()) ++ci;
        caps.push_back(std::move(c));
      }
      o["caps"] = std::move(caps);
      const CXXMethodDecl *M = X->getCallOperator();
      bool generic = X->isGenericLambda();
      if (generic) o["generic"] = 1;
      json::Array ps;
      for (auto *P : M->parameters()) ps.push_back(param(P));
      o["ps"] = std::move(ps);
      if (!generic) {
        o["rt"] = ty(M->getReturnType());
        if (M->getReturnType()->isReferenceType()) o["rr"] = 1;
        o["body"] = stmt(M->getBody());
      } else {
        // emit all instantiations found
        json::Array insts;
        if (auto *FT = X->getLambdaClass()->getLambdaCallOperator()->getDescribedFunctionTemplate()) {
          for (auto *S : FT->specializations()) {
            if (!S->hasBody()) continue;
            json::Object io;
            json::Array ips;
            for (auto *P : S->parameters()) ips.push_back(param(P));
            io["ps"] = std::move(ips);
            io["rt"] = ty(S->getReturnType());
            if (S->getReturnType()->isReferenceType()) io["rr"] = 1;
            io["body"] = stmt(S->getBody());
            io["u"] = usr(S);
            insts.push_back(std::move(io));
          }
        }
        o["insts"] = std::move(insts);
      }
      return std::move(o);
    }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      json::Object o = node("sizeof", E);
      return std::move(o);
    }
    if (auto *X = dyn_cast<CXXTypeidExpr>(E)) {
      json::Object o = node("typeid", E);
      if (!X->isTypeOperand()) o["e"] = expr(X->getExprOperand());
      else o["ty"] = ty(X->getTypeOperand(C));
      return std::move(o);
    }
    if (auto *X = dyn_cast<TypeTraitExpr>(E)) { json::Object o = node("bool", nullptr); o["v"] = X->isValueDependent() ? false : X->getValue(); return std::move(o); }
    if (auto *X = dyn_cast<CXXNoexceptExpr>(E)) { json::Object o = node("bool", nullptr); o["v"] = X->getValue(); return std::move(o); }
    if (auto *X = dyn_cast<RequiresExpr>(E)) { json::Object o = node("bool", nullptr); o["v"] = true; return std::move(o); }
    json::Object o = node("unk", E);
    o["cls"] = E->getStmtClassName();
    json::Array sub;
    for (auto *S : E->children()) if (auto *SE = dyn_cast_or_null<Expr>(S)) sub.push_back(expr(SE));
    o["sub"] = std::move(sub);
    return std::move(o);
  }

  json::Value param(const ParmVarDecl *P) {
    json::Object o;
    o["d"] = did(P);
    o["n"] = P->getNameAsString();
    o["t"] = ty(P->getType());
    if (P->getType()->isReferenceType()) o["ref"] = P->getType().getNonReferenceType().isConstQualified() ? 2 : 1;
    if (P->hasDefaultArg() && !P->hasUnparsedDefaultArg() && !P->hasUninstantiatedDefaultArg() && P->getDefaultArg()) o["def"] = expr(P->getDefaultArg());
    return std::move(o);
  }

  json::Value varDecl(const VarDecl *V) {
    json::Object o;
    o["d"] = did(V);
    o["n"] = V->getNameAsString();
    o["t"] = ty(V->getType());
    o["l"] = lineOf(V->getLocation());
    if (V->getType()->isReferenceType()) o["ref"] = 1;
    if (V->isStaticLocal()) { o["static"] = 1; if (V->getTLSKind() != VarDecl::TLS_None) o["tls"] = 1; }
    if (V->getInit()) o["i"] = expr(V->getInit());
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      json::Array bs;
      for (auto *B : DD->bindings()) {
        json::Object b;
        b["d"] = did(B);
        b["n"] = B->getNameAsString();
        if (auto *HV = B->getHoldingVar()) { b["hv"] = varDecl(HV); }
        else if (B->getBinding()) b["e"] = expr(B->getBinding());
        bs.push_back(std::move(b));
      }
      o["binds"] = std::move(bs);
    }
    return std::move(o);
  }

  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) {
      json::Object o = node("expr", S);
      o["e"] = expr(E);
      return std::move(o);
    }
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      json::Object o = node("block", S);
      json::Array a;
      for (auto *c : X->body()) a.push_back(stmt(c));
      o["s"] = std::move(a);
      o["el"] = lineOf(X->getRBracLoc());
      return std::move(o);
    }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      json::Object o = node("decl", S);
      json::Array a;
      for (auto *D : X->decls())
        if (auto *V = dyn_cast<VarDecl>(D)) a.push_back(varDecl(V));
      o["v"] = std::move(a);
      return std::move(o);
    }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      json::Object o = node("if", S);
      if (X->getInit()) o["init"] = stmt(X->getInit());
      if (X->getConditionVariable()) o["cv"] = varDecl(X->getConditionVariable());
      o["c"] = expr(X->getCond());
      o["a"] = stmt(X->getThen());
      if (X->getElse()) o["b"] = stmt(X->getElse());
      return std::move(o);
    }
    if (auto *X = dyn_cast<WhileStmt>(S)) {
      json::Object o = node("while", S);
      if (X->getConditionVariable()) o["cv"] = varDecl(X->getConditionVariable());
      o["c"] = expr(X->getCond());
      o["s"] = stmt(X->getBody());
      return std::move(o);
    }
    if (auto *X = dyn_cast<DoStmt>(S)) {
      json::Object o = node("do", S);
      o["c"] = expr(X->getCond());
      o["s"] = stmt(X->getBody());
      return std::move(o);
    }
    if (auto *X = dyn_cast<ForStmt>(S)) {
      json::Object o = node("for", S);
      if (X->getInit()) o["init"] = stmt(X->getInit());
      if (X->getCond()) o["c"] = expr(X->getCond());
      if (X->getInc()) o["inc"] = expr(X->getInc());
      o["s"] = stmt(X->getBody());
      return std::move(o);
    }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      json::Object o = node("rfor", S);
      if (X->getInit()) o["init"] = stmt(X->getInit());
      o["v"] = varDecl(X->getLoopVariable());
      o["r"] = expr(X->getRangeInit());
      o["rt"] = ty(X->getRangeInit()->getType());
      o["s"] = stmt(X->getBody());
      return std::move(o);
    }
    if (auto *X = dyn_cast<ReturnStmt>(S)) {
      json::Object o = node("ret", S);
      if (X->getRetValue()) o["e"] = expr(X->getRetValue());
      return std::move(o);
    }
    if (isa<BreakStmt>(S)) return node("break", S);
    if (isa<ContinueStmt>(S)) return node("continue", S);
    if (isa<NullStmt>(S)) return node("nop", S);
    if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      json::Object o = node("try", S);
      o["s"] = stmt(X->getTryBlock());
      json::Array h;
      for (unsigned i = 0; i < X->getNumHandlers(); i++) {
        json::Object ho;
        auto *H = X->getHandler(i);
        if (H->getExceptionDecl()) ho["t"] = ty(H->getCaughtType());
        if (H->getExceptionDecl()) ho["v"] = varDecl(H->getExceptionDecl());
        ho["s"] = stmt(H->getHandlerBlock());
        h.push_back(std::move(ho));
      }
      o["h"] = std::move(h);
      return std::move(o);
    }
    if (auto *X = dyn_cast<SwitchStmt>(S)) {
      json::Object o = node("switch", S);
      if (X->getInit()) o["init"] = stmt(X->getInit());
      o["c"] = expr(X->getCond());
      o["s"] = stmt(X->getBody());
      return std::move(o);
    }
    if (auto *X = dyn_cast<CaseStmt>(S)) {
      json::Object o = node("case", S);
      o["v"] = expr(X->getLHS());
      o["s"] = stmt(X->getSubStmt());
      return std::move(o);
    }
    if (auto *X = dyn_cast<DefaultStmt>(S)) {
      json::Object o = node("default", S);
      o["s"] = stmt(X->getSubStmt());
      return std::move(o);
    }
    if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<LabelStmt>(S)) { json::Object o = node("label", S); o["s"] = stmt(X->getSubStmt()); return std::move(o); }
    json::Object o = node("unkstmt", S);
    o["cls"] = S->getStmtClassName();
    return std::move(o);
  }

  void emitGlobal(const VarDecl *V) {
    std::string u = usr(V);
    if (doneGlobals.count(u)) return;
    doneGlobals.insert(u);
    if (!inRepoLoc(V->getLocation())) return;
    json::Object o;
    o["u"] = u;
    o["q"] = qn(V);
    o["t"] = ty(V->getType());
    o["file"] = fileOf(V->getLocation());
    o["line"] = lineOf(V->getLocation());
    if (V->getType().isConstQualified()) o["const"] = 1;
    if (V->isStaticLocal()) o["slocal"] = 1;
    if (V->getTLSKind() != VarDecl::TLS_None) o["tls"] = 1;
    const VarDecl *Def = nullptr;
    const Expr *I = V->getAnyInitializer(Def);
    if (I) o["i"] = expr(I);
    globals.push_back(std::move(o));
  }

  void emitFn(const FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody() && !F->isDefaulted() ) return;
    if (F->isDependentContext()) return;
    if (F->isTemplated() && F->getTemplatedKind() == FunctionDecl::TK_FunctionTemplate) return;
    if (F->isDefaulted() && !F->getBody()) return;
    if (!F->getBody()) return;
    if (!inRepoLoc(F->getLocation())) return;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return;
    std::string u = usr(F);
    if (doneFns.count(u)) return;
    doneFns.insert(u);
    json::Value fr = fnRef(F);
    json::Object o = std::move(*fr.getAsObject());
    o["file"] = fileOf(F->getLocation());
    o["line"] = lineOf(F->getLocation());
    if (F->isImplicit()) o["impl"] = 1;
    if (F->isDefaulted()) o["defaulted"] = 1;
    json::Array ps;
    for (auto *P : F->parameters()) ps.push_back(param(P));
    o["ps"] = std::move(ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      json::Array ov;
      for (auto *m : M->overridden_methods()) ov.push_back(usr(m));
      o["ov"] = std::move(ov);
      if (isa<CXXDestructorDecl>(F)) o["dtor"] = 1;
    }
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      json::Array in;
      for (auto *I : CD->inits()) {
        json::Object io;
        io["w"] = I->isWritten() ? 1 : 0;
        if (I->isAnyMemberInitializer()) {
          io["k"] = "field";
          io["n"] = I->getAnyMember()->getNameAsString();
          io["t"] = ty(I->getAnyMember()->getType());
          io["c"] = clsName(cast<CXXRecordDecl>(I->getAnyMember()->getParent()));
        } else if (I->isBaseInitializer()) {
          io["k"] = "base";
          io["n"] = QualType(I->getBaseClass(), 0).getCanonicalType().getAsString(PP);
        } else io["k"] = "deleg";
        io["l"] = lineOf(I->getSourceLocation());
        io["e"] = expr(I->getInit());
        in.push_back(std::move(io));
      }
      o["inits"] = std::move(in);
    }
    o["body"] = stmt(F->getBody());
    fns.push_back(std::move(o));
  }

  void emitCls(const CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return;
    if (!inRepoLoc(R->getLocation())) return;
    std::string u = clsName(R);
    if (doneCls.count(u)) return;
    doneCls.insert(u);
    json::Object o;
    o["n"] = u;
    o["file"] = fileOf(R->getLocation());
    o["line"] = lineOf(R->getLocation());
    json::Array bs;
    for (auto &B : R->bases()) bs.push_back(B.getType().getCanonicalType().getAsString(PP));
    o["bases"] = std::move(bs);
    o["abs"] = R->isAbstract() ? 1 : 0;
    json::Array fs;
    for (auto *F : R->fields()) {
      json::Object fo;
      fo["n"] = F->getNameAsString();
      fo["t"] = ty(F->getType());
      fo["l"] = lineOf(F->getLocation());
      if (F->isMutable()) fo["mut"] = 1;
      if (F->getType()->isReferenceType()) fo["ref"] = 1;
      QualType FT = F->getType().getCanonicalType();
      if (FT->isScalarType()) fo["scalar"] = 1;
      if (FT.isConstQualified()) fo["const"] = 1;
      if (F->hasInClassInitializer() && F->getInClassInitializer()) fo["i"] = expr(F->getInClassInitializer());
      fo["acc"] = (int)F->getAccess();
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    json::Array ms;
    for (auto *M : R->methods()) {
      json::Object mo;
      mo["u"] = usr(M);
      mo["n"] = M->getNameAsString();
      mo["q"] = qn(M);
      if (M->isVirtual()) mo["v"] = 1;
      if (M->isConst()) mo["cst"] = 1;
      if (M->isPureVirtual()) mo["pure"] = 1;
      if (M->isDefaulted()) mo["def"] = 1;
      if (M->isImplicit()) mo["impl"] = 1;
      if (M->isStatic()) mo["st"] = 1;
      if (isa<CXXConstructorDecl>(M)) mo["ctor"] = 1;
      if (isa<CXXDestructorDecl>(M)) mo["dtor"] = 1;
      mo["np"] = (int)M->getNumParams();
      mo["acc"] = (int)M->getAccess();
      json::Array ov;
      for (auto *m : M->overridden_methods()) ov.push_back(usr(m));
      mo["ov"] = std::move(ov);
      json::Array pt;
      for (auto *P : M->parameters()) pt.push_back(ty(P->getType()));
      mo["pt"] = std::move(pt);
      mo["rt"] = ty(M->getReturnType());
      mo["l"] = lineOf(M->getLocation());
      ms.push_back(std::move(mo));
    }
    o["methods"] = std::move(ms);
    classes.push_back(std::move(o));
  }
};

struct V : RecursiveASTVisitor<V> {
  Emitter &E;
  V(Emitter &E) : E(E) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) { E.emitFn(F); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { E.emitCls(R); return true; }
  bool VisitVarDecl(VarDecl *D) {
    if (D->hasGlobalStorage() && !D->getDeclContext()->isDependentContext() && E.inRepoLoc(D->getLocation())) E.emitGlobal(D);
    return true;
  }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Emitter E(C);
    V v(E);
    v.TraverseDecl(C.getTranslationUnitDecl());
    json::Object o;
    o["types"] = std::move(E.types);
    o["fns"] = std::move(E.fns);
    o["classes"] = std::move(E.classes);
    o["globals"] = std::move(E.globals);
    std::error_code EC;
    llvm::raw_fd_ostream os(OutPath, EC);
    os << json::Value(std::move(o));
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
    return std::make_unique<Consumer>();
  }
};

// usage: extract REPO EXTRA_ROOT OUT FILE [-- flags...]
int main(int argc, char **argv) {
  if (argc < 5) return 2;
  RepoRoot = argv[1];
  if (RepoRoot.back() != '/') RepoRoot += '/';
  ExtraRoot = argv[2];
  OutPath = argv[3];
  std::string File = argv[4];
  std::vector<std::string> args;
  for (int i = 5; i < argc; i++) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(RepoRoot, args);
  tooling::ClangTool T(DB, {File});
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
