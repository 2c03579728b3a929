// snn-extract: dump the resolved, type-checked AST of one translation unit as
// compact JSON: every function body that is defined below --root (template
// instantiations included), every record, every enum.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/ParentMapContext.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Index/USRGeneration.h>
#include <clang/Tooling/CommonOptionsParser.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/CommandLine.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <clang/Lex/Lexer.h>
#include <set>
using namespace clang;
namespace json = llvm::json;
static llvm::cl::OptionCategory Cat("snn-extract");
static llvm::cl::opt<std::string> Root("root", llvm::cl::cat(Cat), llvm::cl::init("/repo/"));
static llvm::cl::opt<std::string> Excl("exclude", llvm::cl::cat(Cat), llvm::cl::init("external_library"));
static llvm::cl::opt<std::string> Out("o", llvm::cl::cat(Cat), llvm::cl::init("-"));

struct Dumper {
  ASTContext& C; SourceManager& SM; PrintingPolicy PP;
  json::Array lambdas;
  Dumper(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.Bool = true; PP.SuppressUnwrittenScope = true; PP.SuppressInlineNamespace = true;
  }
  std::string file(SourceLocation L) {
    auto P = SM.getPresumedLoc(SM.getExpansionLoc(L));
    if (P.isInvalid()) return "";
    std::string f = P.getFilename();
    llvm::SmallString<256> s(f);
    if (auto FE = SM.getFileEntryRefForID(SM.getFileID(SM.getExpansionLoc(L)))) s = FE->getFileEntry().tryGetRealPathName();
    std::string r = s.str().str();
    if (r.rfind(Root.getValue(), 0) == 0) r = r.substr(Root.getValue().size());
    return r;
  }
  bool inRoot(SourceLocation L) {
    if (L.isInvalid()) return false;
    auto FE = SM.getFileEntryRefForID(SM.getFileID(SM.getExpansionLoc(L)));
    if (!FE) return false;
    std::string r = FE->getFileEntry().tryGetRealPathName().str();
    if (r.rfind(Root.getValue(), 0) != 0) return false;
    if (!Excl.empty() && r.find(Excl.getValue()) != std::string::npos) return false;
    return true;
  }
  int line(SourceLocation L) { return (int)SM.getExpansionLineNumber(L); }
  std::string ty(QualType T) {
    if (T.isNull()) return "";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string usr(const Decl* D) {
    if (!D) return "";
    llvm::SmallString<128> B;
    index::generateUSRForDecl(D, B);
    return B.str().str();
  }
  // function key: USR is ambiguous across template instantiations of members; add qualified record + type
  std::string fkey(const FunctionDecl* F) {
    std::string s = qn(F); s += "|"; s += ty(F->getType());
    if (auto* A = F->getTemplateSpecializationArgs()) {
      s += "<"; for (auto& a : A->asArray()) { std::string b; llvm::raw_string_ostream os(b); a.print(PP, os, true); s += os.str() + ","; } s += ">";
    }
    return s;
  }
  std::string qn(const NamedDecl* D) {
    std::string s; llvm::raw_string_ostream os(s);
    if (auto* M = dyn_cast<CXXMethodDecl>(D)) {
      if (M->getParent()->isLambda()) return "lambda@" + file(M->getLocation()) + ":" + std::to_string(line(M->getLocation())) + ":" + std::to_string(SM.getExpansionColumnNumber(M->getLocation()));
      return rec(M->getParent()) + "::" + M->getNameAsString();
    }
    D->printQualifiedName(os, PP);
    return os.str();
  }
  std::string rec(const CXXRecordDecl* R) { return ty(C.getRecordType(R)); }

  json::Value fnref(const FunctionDecl* F) {
    json::Object o;
    o["q"] = qn(F); o["key"] = fkey(F); o["n"] = F->getNameAsString();
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = rec(M->getParent());
      if (M->isVirtual()) o["virt"] = true;
      if (M->isConst()) o["const"] = true;
      if (M->isStatic()) o["static"] = true;
      if (M->isDefaulted()) o["defaulted"] = true;
      if (M->isCopyAssignmentOperator() || M->isMoveAssignmentOperator()) o["assign"] = true;
      if (auto* K = dyn_cast<CXXConstructorDecl>(M)) {
        if (K->isCopyConstructor()) o["copy"] = true;
        if (K->isMoveConstructor()) o["move"] = true;
        if (K->isDefaultConstructor()) o["dflt"] = true;
      }
    }
    if (inRoot(F->getLocation())) o["repo"] = true;
    o["ret"] = ty(F->getReturnType());
    json::Array pt; for (auto* p : F->parameters()) pt.push_back(ty(p->getType()));
    o["pt"] = std::move(pt);
    if (auto* A = F->getTemplateSpecializationArgs()) {
      json::Array ta; for (auto& a : A->asArray()) { std::string b; llvm::raw_string_ostream os(b); a.print(PP, os, true); ta.push_back(os.str()); }
      o["targs"] = std::move(ta);
    }
    return o;
  }
  std::string did(const Decl* D) { return std::to_string(reinterpret_cast<uintptr_t>(D->getCanonicalDecl()) & 0xffffffffff); }

  json::Value E(const Expr* e) {
    if (!e) return nullptr;
    json::Object o;
    o["l"] = line(e->getExprLoc());
    o["t"] = ty(e->getType());
    auto K = [&](const char* k) { o["k"] = k; };
    if (auto* x = dyn_cast<ParenExpr>(e)) return E(x->getSubExpr());
    if (auto* x = dyn_cast<ExprWithCleanups>(e)) return E(x->getSubExpr());
    if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) return E(x->getSubExpr());
    if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) return E(x->getSubExpr());
    if (auto* x = dyn_cast<ConstantExpr>(e)) return E(x->getSubExpr());
    if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return E(x->getReplacement());
    if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) return E(x->getExpr());
    if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) return E(x->getExpr());
    if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) return E(x->getSubExpr());
    if (auto* x = dyn_cast<CXXRewrittenBinaryOperator>(e)) return E(x->getSemanticForm());
    if (auto* x = dyn_cast<GenericSelectionExpr>(e)) return E(x->getResultExpr());
    if (auto* x = dyn_cast<OpaqueValueExpr>(e)) return E(x->getSourceExpr());
    if (auto* x = dyn_cast<CastExpr>(e)) {
      auto ck = x->getCastKind();
      bool imp = isa<ImplicitCastExpr>(x);
      switch (ck) {
        case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay: case CK_ConstructorConversion:
        case CK_UserDefinedConversion: case CK_BuiltinFnToFnPtr:
          if (ck == CK_LValueToRValue) { json::Value v = E(x->getSubExpr()); return v; }
          return E(x->getSubExpr());
        case CK_ArrayToPointerDecay:
          if (isa<clang::StringLiteral>(x->getSubExpr()->IgnoreParens())) return E(x->getSubExpr());
          K("decay"); o["e"] = E(x->getSubExpr()); return o;
        case CK_DerivedToBase: case CK_UncheckedDerivedToBase: {
          K("upcast"); o["e"] = E(x->getSubExpr()); return o;
        }
        default: break;
      }
      K("cast"); o["ck"] = x->getCastKindName(); if (!imp) o["ex"] = true;
      if (isa<CXXDynamicCastExpr>(x)) o["ck"] = "Dynamic";
      o["from"] = ty(x->getSubExpr()->getType());
      o["e"] = E(x->getSubExpr());
      return o;
    }
    if (auto* x = dyn_cast<IntegerLiteral>(e)) { K("int"); llvm::SmallString<32> s; x->getValue().toString(s, 10, x->getType()->isSignedIntegerType()); o["v"] = s.str().str(); return o; }
    if (auto* x = dyn_cast<FloatingLiteral>(e)) { K("flt"); llvm::SmallString<32> s; x->getValue().toString(s); 
      auto R = Lexer::getSourceText(CharSourceRange::getTokenRange(SM.getSpellingLoc(x->getBeginLoc()), SM.getSpellingLoc(x->getEndLoc())), SM, C.getLangOpts());
      o["v"] = s.str().str(); o["src"] = R.str(); return o; }
    if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) { K("bool"); o["v"] = x->getValue(); return o; }
    if (auto* x = dyn_cast<CharacterLiteral>(e)) { K("int"); o["v"] = std::to_string(x->getValue()); return o; }
    if (auto* x = dyn_cast<clang::StringLiteral>(e)) { K("str"); o["v"] = json::fixUTF8(x->isOrdinary() ? x->getString() : ""); return o; }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { K("null"); return o; }
    if (isa<CXXThisExpr>(e)) { K("this"); return o; }
    if (auto* x = dyn_cast<DeclRefExpr>(e)) {
      const ValueDecl* d = x->getDecl();
      if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
        K("enum"); o["n"] = ec->getNameAsString(); llvm::SmallString<32> s; ec->getInitVal().toString(s, 10); o["v"] = s.str().str();
        o["en"] = ty(ec->getType()); return o;
      }
      if (auto* f = dyn_cast<FunctionDecl>(d)) { K("fnref"); o["fn"] = fnref(f); return o; }
      if (auto* b = dyn_cast<BindingDecl>(d)) { K("bind"); o["n"] = b->getNameAsString(); o["d"] = did(b); if (auto* h = b->getHoldingVar(); h && h->getInit()) o["e"] = E(h->getInit()); else if (b->getBinding()) o["e"] = E(b->getBinding()); return o; }
      K("ref"); o["n"] = d->getNameAsString(); o["d"] = did(d);
      if (auto* v = dyn_cast<VarDecl>(d)) {
        if (v->isStaticDataMember()) { o["g"] = qn(v); }
        else if (v->hasGlobalStorage() && !v->isStaticLocal()) o["g"] = qn(v);
        else if (v->isStaticLocal()) o["sl"] = true;
        if (o.get("g") || v->isConstexpr() ) { const VarDecl* DV = nullptr; if (auto* in = v->getAnyInitializer(DV)) if (!in->isValueDependent() && (v->isConstexpr() || v->getType().isConstQualified())) { 
           if (inRoot(DV->getLocation())) o["init"] = E(in);
           else { Expr::EvalResult R; if (in->EvaluateAsRValue(R, C) && R.Val.isFloat()) { llvm::SmallString<32> s; R.Val.getFloat().toString(s); o["cv"] = s.str().str(); } else if (R.Val.isInt()) { llvm::SmallString<32> s; R.Val.getInt().toString(s,10); o["cv"] = s.str().str(); } } } }
      }
      return o;
    }
    if (auto* x = dyn_cast<MemberExpr>(e)) {
      auto* md = x->getMemberDecl();
      if (auto* f = dyn_cast<FieldDecl>(md)) {
        K("mem"); o["f"] = f->getNameAsString(); o["o"] = ty(C.getRecordType(f->getParent())); o["b"] = E(x->getBase()); if (x->isArrow()) o["ar"] = true;
        return o;
      }
      if (auto* v = dyn_cast<VarDecl>(md)) { K("ref"); o["n"] = v->getNameAsString(); o["d"] = did(v); o["g"] = qn(v);
        const VarDecl* DV = nullptr; if (auto* in = v->getAnyInitializer(DV)) if (v->isConstexpr() || v->getType().isConstQualified()) o["init"] = E(in);
        return o; }
      if (auto* f = dyn_cast<CXXMethodDecl>(md)) { K("memfn"); o["fn"] = fnref(f); o["b"] = E(x->getBase()); if (x->isArrow()) o["ar"] = true; if (x->hasQualifier()) o["qual"] = true; return o; }
      if (auto* ec = dyn_cast<EnumConstantDecl>(md)) { K("enum"); o["n"] = ec->getNameAsString(); llvm::SmallString<32> s; ec->getInitVal().toString(s, 10); o["v"] = s.str().str(); return o; }
      K("?mem"); return o;
    }
    if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
      K("mcall");
      if (auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) {
        o["obj"] = E(me->getBase()); if (me->isArrow()) o["ar"] = true;
        if (auto* f = dyn_cast<FunctionDecl>(me->getMemberDecl())) o["fn"] = fnref(f);
        if (me->hasQualifier()) o["qual"] = true;
      } else o["callee"] = E(x->getCallee());
      json::Array a; for (auto* y : x->arguments()) a.push_back(E(y)); o["a"] = std::move(a);
      return o;
    }
    if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
      K("opcall"); o["op"] = getOperatorSpelling(x->getOperator());
      if (x->getOperator() == OO_Call) o["op"] = "()";
      if (x->getOperator() == OO_Subscript) o["op"] = "[]";
      if (auto* f = x->getDirectCallee()) { o["fn"] = fnref(f); }
      else o["callee"] = E(x->getCallee());
      json::Array a; for (auto* y : x->arguments()) a.push_back(E(y)); o["a"] = std::move(a);
      return o;
    }
    if (auto* x = dyn_cast<CallExpr>(e)) {
      K("call");
      if (auto* f = x->getDirectCallee()) o["fn"] = fnref(f); else o["callee"] = E(x->getCallee());
      json::Array a; for (auto* y : x->arguments()) a.push_back(E(y)); o["a"] = std::move(a);
      return o;
    }
    if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
      K("ctor"); o["fn"] = fnref(x->getConstructor()); if (x->isListInitialization()) o["list"] = true;
      if (isa<CXXTemporaryObjectExpr>(x)) o["tmp"] = true;
      if (x->isElidable()) o["elide"] = true;
      json::Array a; for (auto* y : x->arguments()) a.push_back(E(y)); o["a"] = std::move(a);
      return o;
    }
    if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) { K("ctor"); o["fn"] = fnref(x->getConstructor()); o["inh"] = true; o["a"] = json::Array(); return o; }
    if (auto* x = dyn_cast<CXXNewExpr>(e)) {
      K("new"); o["at"] = ty(x->getAllocatedType());
      if (x->isArray()) { o["arr"] = true; if (auto s = x->getArraySize()) o["n"] = E(*s); }
      if (x->getInitializer()) o["init"] = E(x->getInitializer());
      return o;
    }
    if (auto* x = dyn_cast<CXXDeleteExpr>(e)) { K("delete"); o["e"] = E(x->getArgument()); return o; }
    if (auto* x = dyn_cast<LambdaExpr>(e)) {
      K("lambda");
      json::Array caps;
      auto ii = x->capture_init_begin();
      for (auto& c : x->captures()) {
        json::Object co;
        if (c.capturesThis()) { co["this"] = true; co["byref"] = c.getCaptureKind() != LCK_StarThis; }
        else if (c.capturesVariable()) { co["d"] = did(c.getCapturedVar()); co["n"] = c.getCapturedVar()->getNameAsString(); co["byref"] = c.getCaptureKind() == LCK_ByRef;
          if (*ii) { if (auto* vd = dyn_cast<VarDecl>(c.getCapturedVar())) if (vd->isInitCapture()) co["init"] = E(vd->getInit()); } }
        caps.push_back(std::move(co)); ++ii;
      }
      o["caps"] = std::move(caps);
      auto* m = x->getCallOperator();
      json::Array ps; for (auto* p : m->parameters()) ps.push_back(P(p)); o["params"] = std::move(ps);
      o["body"] = S(x->getBody()); o["q"] = qn(m); o["ret"] = ty(m->getReturnType());
      if (m->getParent()->isGenericLambda()) { o["gen"] = true;
        // body of first instantiation, if any
        if (auto* ft = m->getDescribedFunctionTemplate()) for (auto* sp : ft->specializations()) if (sp->hasBody()) { json::Array ps2; for (auto* p : sp->parameters()) ps2.push_back(P(p)); o["params"] = std::move(ps2); o["body"] = S(sp->getBody()); break; } }
      return o;
    }
    if (auto* x = dyn_cast<InitListExpr>(e)) {
      auto* sem = x->isSemanticForm() ? x : x->getSemanticForm(); if (!sem) sem = x;
      K("ilist"); json::Array a; for (auto* y : sem->inits()) a.push_back(E(y)); o["a"] = std::move(a);
      if (auto* rt = sem->getType()->getAsCXXRecordDecl()) { json::Array fs; for (auto* f : rt->fields()) fs.push_back(f->getNameAsString()); o["fs"] = std::move(fs); o["nb"] = (int)rt->getNumBases(); }
      return o;
    }
    if (auto* x = dyn_cast<CXXParenListInitExpr>(e)) { K("ilist"); json::Array a; for (auto* y : x->getInitExprs()) a.push_back(E(y)); o["a"] = std::move(a); return o; }
    if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) { K("zero"); return o; }
    if (auto* x = dyn_cast<CompoundAssignOperator>(e)) { K("casg"); o["op"] = BinaryOperator::getOpcodeStr(x->getOpcode()).drop_back().str(); o["ct"] = ty(x->getComputationResultType()); o["a"] = E(x->getLHS()); o["b"] = E(x->getRHS()); return o; }
    if (auto* x = dyn_cast<BinaryOperator>(e)) {
      if (x->getOpcode() == BO_Assign) { K("asg"); } else { K("bin"); o["op"] = x->getOpcodeStr().str(); }
      o["a"] = E(x->getLHS()); o["b"] = E(x->getRHS()); return o; }
    if (auto* x = dyn_cast<UnaryOperator>(e)) { K("un"); o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str(); if (x->isPostfix()) o["post"] = true; o["e"] = E(x->getSubExpr()); return o; }
    if (auto* x = dyn_cast<ConditionalOperator>(e)) { K("cond"); o["c"] = E(x->getCond()); o["a"] = E(x->getTrueExpr()); o["b"] = E(x->getFalseExpr()); if (x->isLValue()) o["lv"] = true; return o; }
    if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) { K("sub"); o["a"] = E(x->getBase()); o["b"] = E(x->getIdx()); return o; }
    if (auto* x = dyn_cast<CXXThrowExpr>(e)) { K("throw"); if (x->getSubExpr()) o["e"] = E(x->getSubExpr()); return o; }
    if (auto* x = dyn_cast<CXXTypeidExpr>(e)) { K("typeid"); if (!x->isTypeOperand()) o["e"] = E(x->getExprOperand()); else o["at"] = ty(x->getTypeOperand(C)); return o; }
    if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) { K("sizeof"); Expr::EvalResult R; if (!x->isValueDependent() && x->EvaluateAsInt(R, C)) { llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); o["v"] = s.str().str(); } return o; }
    if (auto* x = dyn_cast<ArrayInitLoopExpr>(e)) { return E(x->getCommonExpr()); }
    if (auto* x = dyn_cast<StmtExpr>(e)) { K("stmtexpr"); o["s"] = S(x->getSubStmt()); return o; }
    if (auto* x = dyn_cast<PredefinedExpr>(e)) { K("str"); o["v"] = ""; return o; }
    // dependent forms (uninstantiated templates)
    if (auto* x = dyn_cast<CXXDependentScopeMemberExpr>(e)) { K("dmem"); o["f"] = x->getMember().getAsString(); if (!x->isImplicitAccess()) o["b"] = E(x->getBase()); return o; }
    K("?"); o["cn"] = e->getStmtClassName();
    json::Array ch; for (auto* c : e->children()) if (c) ch.push_back(S(c)); o["ch"] = std::move(ch);
    return o;
  }
  json::Value P(const ParmVarDecl* p) {
    json::Object o; o["n"] = p->getNameAsString(); o["d"] = did(p); o["t"] = ty(p->getType());
    if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) o["def"] = E(p->getDefaultArg());
    return o;
  }
  json::Value VD(const VarDecl* v) {
    json::Object o; o["n"] = v->getNameAsString(); o["d"] = did(v); o["t"] = ty(v->getType()); o["l"] = line(v->getLocation());
    if (v->getInit()) o["init"] = E(v->getInit());
    if (v->isStaticLocal()) { o["static"] = true; if (v->getTLSKind() != VarDecl::TLS_None) o["tls"] = true; if (v->getType().isConstant(C)) o["const"] = true; }
    if (auto* dd = dyn_cast<DecompositionDecl>(v)) { json::Array bs; for (auto* b : dd->bindings()) { json::Object bo; bo["n"] = b->getNameAsString(); bo["d"] = did(b); if (auto* h = b->getHoldingVar(); h && h->getInit()) bo["e"] = E(h->getInit()); else if (b->getBinding()) bo["e"] = E(b->getBinding()); bs.push_back(std::move(bo)); } o["binds"] = std::move(bs); }
    return o;
  }
  json::Value S(const Stmt* s) {
    if (!s) return nullptr;
    if (auto* e = dyn_cast<Expr>(s)) return E(e);
    json::Object o; o["l"] = line(s->getBeginLoc());
    auto K = [&](const char* k) { o["k"] = k; };
    if (auto* x = dyn_cast<CompoundStmt>(s)) { K("block"); json::Array a; for (auto* c : x->body()) a.push_back(S(c)); o["s"] = std::move(a); return o; }
    if (auto* x = dyn_cast<DeclStmt>(s)) { K("decl"); json::Array a; for (auto* d : x->decls()) if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(VD(v)); o["v"] = std::move(a); return o; }
    if (auto* x = dyn_cast<IfStmt>(s)) { K("if"); if (x->getInit()) o["i"] = S(x->getInit()); if (x->getConditionVariable()) o["cv"] = VD(x->getConditionVariable()); o["c"] = E(x->getCond()); o["a"] = S(x->getThen()); if (x->getElse()) o["b"] = S(x->getElse()); if (x->isConstexpr()) o["cx"] = true; return o; }
    if (auto* x = dyn_cast<ForStmt>(s)) { K("for"); if (x->getInit()) o["i"] = S(x->getInit()); if (x->getCond()) o["c"] = E(x->getCond()); if (x->getInc()) o["n"] = E(x->getInc()); o["b"] = S(x->getBody()); return o; }
    if (auto* x = dyn_cast<CXXForRangeStmt>(s)) { K("rfor"); o["v"] = VD(x->getLoopVariable()); o["r"] = E(x->getRangeInit()); o["b"] = S(x->getBody()); if (x->getInit()) o["i"] = S(x->getInit()); return o; }
    if (auto* x = dyn_cast<WhileStmt>(s)) { K("while"); o["c"] = E(x->getCond()); o["b"] = S(x->getBody()); return o; }
    if (auto* x = dyn_cast<DoStmt>(s)) { K("do"); o["c"] = E(x->getCond()); o["b"] = S(x->getBody()); return o; }
    if (auto* x = dyn_cast<ReturnStmt>(s)) { K("ret"); if (x->getRetValue()) o["e"] = E(x->getRetValue()); return o; }
    if (isa<BreakStmt>(s)) { K("break"); return o; }
    if (isa<ContinueStmt>(s)) { K("continue"); return o; }
    if (isa<NullStmt>(s)) { K("nop"); return o; }
    if (auto* x = dyn_cast<SwitchStmt>(s)) { K("switch"); if (x->getInit()) o["i"] = S(x->getInit()); o["c"] = E(x->getCond()); o["b"] = S(x->getBody()); return o; }
    if (auto* x = dyn_cast<CaseStmt>(s)) { K("case"); o["v"] = E(x->getLHS()); o["s"] = S(x->getSubStmt()); return o; }
    if (auto* x = dyn_cast<DefaultStmt>(s)) { K("default"); o["s"] = S(x->getSubStmt()); return o; }
    if (auto* x = dyn_cast<CXXTryStmt>(s)) { K("try"); o["b"] = S(x->getTryBlock()); json::Array a; for (unsigned i = 0; i < x->getNumHandlers(); i++) { auto* h = x->getHandler(i); json::Object ho; ho["t"] = h->getExceptionDecl() ? ty(h->getCaughtType()) : "..."; if (h->getExceptionDecl()) ho["d"] = did(h->getExceptionDecl()); ho["b"] = S(h->getHandlerBlock()); a.push_back(std::move(ho)); } o["h"] = std::move(a); return o; }
    if (auto* x = dyn_cast<AttributedStmt>(s)) return S(x->getSubStmt());
    if (auto* x = dyn_cast<LabelStmt>(s)) return S(x->getSubStmt());
    K("?s"); o["cn"] = s->getStmtClassName(); return o;
  }
};

struct V : RecursiveASTVisitor<V> {
  ASTContext& C; Dumper D; json::Array fns, recs, enums, vars; std::set<std::string> seen;
  V(ASTContext& c) : C(c), D(c) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl* F) {
    if (!F->isThisDeclarationADefinition() ) return true;
    if (!D.inRoot(F->getLocation())) return true;
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
    bool dep = F->isDependentContext();
    std::string key = D.fkey(F);
    if (!seen.insert(key).second) return true;
    auto fr = D.fnref(F);
    json::Object o = std::move(*fr.getAsObject());
    o["dep"] = dep;
    o["file"] = D.file(F->getLocation()); o["line"] = D.line(F->getLocation()); o["end"] = D.line(F->getEndLoc());
    json::Array ps; for (auto* p : F->parameters()) ps.push_back(D.P(p)); o["params"] = std::move(ps);
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
      json::Array ov; for (auto* b : M->overridden_methods()) ov.push_back(D.fkey(b)); o["ov"] = std::move(ov);
      o["acc"] = (int)M->getAccess();
      if (auto* K = dyn_cast<CXXConstructorDecl>(M)) {
        o["kind"] = "ctor";
        json::Array in;
        for (auto* i : K->inits()) { json::Object io;
          if (i->isMemberInitializer()) io["f"] = i->getMember()->getNameAsString();
          else if (i->isBaseInitializer()) io["base"] = D.ty(QualType(i->getBaseClass(), 0));
          else if (i->isDelegatingInitializer()) io["deleg"] = true;
          io["w"] = i->isWritten(); io["e"] = D.E(i->getInit()); in.push_back(std::move(io)); }
        o["inits"] = std::move(in);
      } else if (isa<CXXDestructorDecl>(M)) o["kind"] = "dtor"; else o["kind"] = "method";
    } else o["kind"] = "fn";
    if (F->getBody()) o["body"] = D.S(F->getBody());
    fns.push_back(std::move(o));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* R) {
    if (!R->isThisDeclarationADefinition() || !D.inRoot(R->getLocation()) || R->isLambda()) return true;
    if (!seen.insert("rec " + D.rec(R)).second) return true;
    json::Object o; o["q"] = D.rec(R); o["file"] = D.file(R->getLocation()); o["line"] = D.line(R->getLocation()); o["dep"] = R->isDependentContext();
    json::Array bs; for (auto& b : R->bases()) bs.push_back(D.ty(b.getType())); o["bases"] = std::move(bs);
    json::Array fs; for (auto* f : R->fields()) { json::Object fo; fo["n"] = f->getNameAsString(); fo["t"] = D.ty(f->getType()); fo["acc"] = (int)f->getAccess(); fo["l"] = D.line(f->getLocation()); if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = D.E(f->getInClassInitializer()); fs.push_back(std::move(fo)); }
    o["fields"] = std::move(fs);
    json::Array ms; if (!R->isDependentContext()) for (auto* m : R->methods()) { auto fr = D.fnref(m); json::Object mo = std::move(*fr.getAsObject()); mo["acc"] = (int)m->getAccess(); json::Array ov; for (auto* b : m->overridden_methods()) ov.push_back(D.fkey(b)); mo["ov"] = std::move(ov); if (m->isPureVirtual()) mo["pure"] = true; if (m->isDeleted()) mo["deleted"] = true; if (m->isImplicit()) mo["implicit"] = true; mo["line"] = D.line(m->getLocation()); ms.push_back(std::move(mo)); }
    o["methods"] = std::move(ms);
    o["abstract"] = !R->isDependentContext() && R->isAbstract();
    recs.push_back(std::move(o));
    return true;
  }
  bool VisitEnumDecl(EnumDecl* R) {
    if (!D.inRoot(R->getLocation())) return true;
    if (!seen.insert("enum " + D.qn(R)).second) return true;
    json::Object o; o["q"] = D.qn(R); json::Array es; for (auto* e : R->enumerators()) { json::Object eo; eo["n"] = e->getNameAsString(); llvm::SmallString<32> s; e->getInitVal().toString(s, 10); eo["v"] = s.str().str(); es.push_back(std::move(eo)); } o["e"] = std::move(es);
    o["file"] = D.file(R->getLocation());
    enums.push_back(std::move(o));
    return true;
  }
  bool VisitVarDecl(VarDecl* v) {
    if (!v->hasGlobalStorage() || v->isStaticLocal() || !D.inRoot(v->getLocation()) || !v->isThisDeclarationADefinition()) return true;
    if (!seen.insert("var " + D.qn(v)).second) return true;
    json::Object o; o["q"] = D.qn(v); o["t"] = D.ty(v->getType()); o["file"] = D.file(v->getLocation()); o["line"] = D.line(v->getLocation());
    if (v->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
    if (v->getType().isConstant(C)) o["const"] = true;
    if (v->getInit() && !v->getInit()->isValueDependent()) o["init"] = D.E(v->getInit());
    vars.push_back(std::move(o));
    return true;
  }
};
// boost class-version / export facts live in template specialisations outside --root namespaces
struct VB : RecursiveASTVisitor<VB> {
  ASTContext& C; Dumper& D; json::Array versions, exports;
  VB(ASTContext& c, Dumper& d) : C(c), D(d) {}
  bool VisitClassTemplateSpecializationDecl(ClassTemplateSpecializationDecl* S) {
    if (!D.inRoot(S->getLocation())) return true;
    std::string n = S->getQualifiedNameAsString();
    json::Object o; o["q"] = n; if (S->getTemplateArgs().size()) { auto& a = S->getTemplateArgs()[0]; if (a.getKind() == TemplateArgument::Type) o["arg"] = D.ty(a.getAsType()); }
    o["file"] = D.file(S->getLocation()); o["line"] = D.line(S->getLocation());
    for (auto* d : S->decls()) if (auto* v = dyn_cast<VarDecl>(d)) if (v->getInit()) { Expr::EvalResult R; if (!v->getInit()->isValueDependent() && v->getInit()->EvaluateAsInt(R, C)) { llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); o["value"] = s.str().str(); } }
    for (auto& b : S->bases()) if (auto* r = b.getType()->getAsCXXRecordDecl()) if (auto* cs = dyn_cast<ClassTemplateSpecializationDecl>(r)) if (cs->getTemplateArgs().size() && cs->getTemplateArgs()[0].getKind() == TemplateArgument::Integral) { llvm::SmallString<32> s; cs->getTemplateArgs()[0].getAsIntegral().toString(s, 10); o["base_value"] = s.str().str(); }
    versions.push_back(std::move(o));
    return true;
  }
};

struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext& C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    // types are named by their canonical arguments, not as some explicit instantiation spelled them
    struct U : RecursiveASTVisitor<U> {
      bool shouldVisitTemplateInstantiations() const { return true; }
      bool VisitClassTemplateSpecializationDecl(ClassTemplateSpecializationDecl* S) { if (S->getTypeAsWritten()) S->setTypeAsWritten(nullptr); return true; }
    } u; u.TraverseDecl(C.getTranslationUnitDecl());
    V v(C); v.TraverseDecl(C.getTranslationUnitDecl());
    VB b(C, v.D); b.TraverseDecl(C.getTranslationUnitDecl());
    json::Object o; o["fns"] = std::move(v.fns); o["recs"] = std::move(v.recs); o["enums"] = std::move(v.enums); o["vars"] = std::move(v.vars); o["specs"] = std::move(b.versions);
    std::error_code EC; llvm::raw_fd_ostream os(Out, EC); os << json::Value(std::move(o));
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Cons>(); }
};
int main(int argc, const char** argv) {
  auto P = tooling::CommonOptionsParser::create(argc, argv, Cat);
  if (!P) { llvm::errs() << llvm::toString(P.takeError()); return 2; }
  tooling::ClangTool T(P->getCompilations(), P->getSourcePathList());
  return T.run(tooling::newFrontendActionFactory<Act>().get());
}
