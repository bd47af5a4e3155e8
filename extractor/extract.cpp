// Type-checked program extractor: dumps the resolved AST of every declaration
// under a root directory as JSON. Built against libclang-cpp 18.
// usage: extract OUT.json ROOT FILE -- flags...
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Index/USRGeneration.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
#include <string>

using namespace clang;
namespace J = llvm::json;
using J::Array;
using J::Object;
using J::Value;

static std::string ROOT, MAINAUX;

namespace {
class Dumper : public RecursiveASTVisitor<Dumper> {
public:
  ASTContext& C;
  SourceManager& SM;
  PrintingPolicy PP;
  std::map<std::string, int> typeIdx;
  std::vector<std::string> types;
  Array functions, classes, enums, globals;
  std::set<const void*> done;
  std::map<const Decl*, int> localIds;
  std::map<const OpaqueValueExpr*, int> ovs;

  explicit Dumper(ASTContext& ctx)
      : C(ctx), SM(ctx.getSourceManager()), PP(ctx.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.Bool = true;
    PP.TerseOutput = true;
  }

  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }

  std::string fileOf(SourceLocation L) {
    if (L.isInvalid())
      return "";
    L = SM.getExpansionLoc(L);
    auto F = SM.getFilename(L).str();
    llvm::SmallString<256> P(F);
    return P.str().str();
  }
  bool inRoot(SourceLocation L, std::string* rel = nullptr) {
    auto f = fileOf(L);
    if (!MAINAUX.empty() && f == MAINAUX) {
      if (rel)
        *rel = "aux/" + f.substr(f.rfind('/') + 1);
      return true;
    }
    if (f.rfind(ROOT + "/", 0) != 0)
      return false;
    if (rel)
      *rel = f.substr(ROOT.size() + 1);
    return true;
  }
  int line(SourceLocation L) {
    if (L.isInvalid())
      return 0;
    return static_cast<int>(SM.getExpansionLineNumber(L));
  }
  int T(QualType q) {
    if (q.isNull())
      return tIdx("<null>");
    std::string s = q.getCanonicalType().getAsString(PP);
    return tIdx(s);
  }
  int tIdx(const std::string& s) {
    auto [it, ins] = typeIdx.try_emplace(s, (int)types.size());
    if (ins)
      types.push_back(s);
    return it->second;
  }
  std::string usr(const Decl* D) {
    llvm::SmallString<128> b;
    if (index::generateUSRForDecl(D->getCanonicalDecl(), b))
      return "";
    return b.str().str();
  }
  std::string qn(const NamedDecl* D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    PrintingPolicy p2 = PP;
    p2.SuppressUnwrittenScope = true;
    p2.AnonymousTagLocations = false;
    D->printQualifiedName(os, p2);
    return os.str();
  }
  int localId(const Decl* D) {
    D = D->getCanonicalDecl();
    auto [it, ins] = localIds.try_emplace(D, (int)localIds.size() + 1);
    return it->second;
  }

  static int64_t I64(const llvm::APSInt& v) {
    return v.isRepresentableByInt64() ? v.getExtValue() : static_cast<int64_t>(v.getRawData()[0]);
  }

  // ---------------------------------------------------------------- expr
  Value E(const Expr* e) {
    if (!e)
      return nullptr;
    const Expr* orig = e;
    // strip
    for (;;) {
      if (auto* x = dyn_cast<ParenExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<FullExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { e = x->getReplacement(); continue; }
      if (auto* x = dyn_cast<CXXRewrittenBinaryOperator>(e)) { e = x->getSemanticForm(); continue; }
      if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) {
        // mark
        Object o{{"k", "defarg"}, {"l", line(e->getExprLoc())}};
        o["e"] = E(x->getExpr());
        return o;
      }
      if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) { e = x->getExpr(); continue; }
      if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<ImplicitCastExpr>(e)) {
        auto ck = x->getCastKind();
        if (ck == CK_FloatingToIntegral || ck == CK_IntegralToFloating ||
            ck == CK_IntegralCast || ck == CK_IntegralToBoolean ||
            ck == CK_PointerToBoolean || ck == CK_FloatingToBoolean ||
            ck == CK_FloatingCast) {
          // constant folding of literals is left to the consumer
          Object o{{"k", "icast"}, {"ck", CastExpr::getCastKindName(ck)}, {"t", T(x->getType())}};
          o["e"] = E(x->getSubExpr());
          return o;
        }
        e = x->getSubExpr();
        continue;
      }
      break;
    }
    (void)orig;
    Object o;
    o["l"] = line(e->getExprLoc());
    o["t"] = T(e->getType());
    auto set = [&](const char* k) { o["k"] = k; };
    if (auto* x = dyn_cast<IntegerLiteral>(e)) {
      set("int");
      llvm::SmallString<32> s;
      x->getValue().toString(s, 10, x->getType()->isSignedIntegerType());
      if (x->getValue().getActiveBits() <= 62)
        o["v"] = (int64_t)x->getValue().getLimitedValue();
      else
        o["vs"] = s.str().str();
      return o;
    }
    if (auto* x = dyn_cast<FloatingLiteral>(e)) {
      set("float");
      o["v"] = x->getValueAsApproximateDouble();
      return o;
    }
    if (auto* x = dyn_cast<StringLiteral>(e)) {
      set("str");
      if (x->getCharByteWidth() == 1) {
        std::string s = x->getString().str();
        if (J::isUTF8(s)) o["v"] = s; else o["v"] = J::fixUTF8(s);
      }
      return o;
    }
    if (auto* x = dyn_cast<CharacterLiteral>(e)) { set("char"); o["v"] = (int64_t)x->getValue(); return o; }
    if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) { set("bool"); o["v"] = x->getValue(); return o; }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { set("null"); return o; }
    if (isa<CXXThisExpr>(e)) { set("this"); return o; }
    if (auto* x = dyn_cast<DeclRefExpr>(e)) {
      set("ref");
      declRef(o, x->getDecl());
      if (x->refersToEnclosingVariableOrCapture()) o["cap"] = true;
      return o;
    }
    if (auto* x = dyn_cast<MemberExpr>(e)) {
      set("member");
      o["n"] = x->getMemberDecl()->getNameAsString();
      o["u"] = usr(x->getMemberDecl());
      if (auto* rd = dyn_cast<RecordDecl>(x->getMemberDecl()->getDeclContext()))
        o["cls"] = qn(rd);
      if (x->isArrow()) o["arrow"] = true;
      if (isa<CXXMethodDecl>(x->getMemberDecl())) o["mk"] = "method";
      else if (isa<VarDecl>(x->getMemberDecl())) o["mk"] = "static";
      o["b"] = E(x->getBase());
      return o;
    }
    if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
      set("call");
      o["op"] = getOperatorSpelling(x->getOperator());
      callee(o, x);
      Array a;
      for (auto* arg : x->arguments()) a.push_back(E(arg));
      o["a"] = std::move(a);
      return o;
    }
    if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
      set("call");
      callee(o, x);
      o["obj"] = E(x->getImplicitObjectArgument());
      if (auto* m = dyn_cast_or_null<MemberExpr>(x->getCallee()->IgnoreParenImpCasts())) {
        if (m->hasQualifier()) o["qual"] = true;
        if (m->isArrow()) o["arrow"] = true;
      }
      Array a;
      for (auto* arg : x->arguments()) a.push_back(E(arg));
      o["a"] = std::move(a);
      return o;
    }
    if (auto* x = dyn_cast<CallExpr>(e)) {
      set("call");
      callee(o, x);
      if (!x->getDirectCallee()) o["f"] = E(x->getCallee());
      Array a;
      for (auto* arg : x->arguments()) a.push_back(E(arg));
      o["a"] = std::move(a);
      return o;
    }
    if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
      set("ctor");
      o["n"] = qn(x->getConstructor()->getParent());
      o["u"] = usr(x->getConstructor());
      if (x->getConstructor()->isCopyConstructor()) o["copy"] = true;
      if (x->getConstructor()->isMoveConstructor()) o["move"] = true;
      if (x->isElidable()) o["elide"] = true;
      if (x->isListInitialization()) o["list"] = true;
      Array a;
      for (auto* arg : x->arguments()) a.push_back(E(arg));
      o["a"] = std::move(a);
      return o;
    }
    if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
      set("ctor");
      o["n"] = qn(x->getConstructor()->getParent());
      o["u"] = usr(x->getConstructor());
      o["inherited"] = true;
      o["a"] = Array();
      return o;
    }
    if (auto* x = dyn_cast<CXXNewExpr>(e)) {
      set("new");
      o["at"] = T(x->getAllocatedType());
      if (x->isArray() && x->getArraySize()) o["size"] = E(*x->getArraySize());
      Array pa;
      for (auto* p : x->placement_arguments()) pa.push_back(E(p));
      if (!pa.empty()) o["pa"] = std::move(pa);
      o["init"] = E(x->getInitializer());
      return o;
    }
    if (auto* x = dyn_cast<CXXDeleteExpr>(e)) { set("delete"); o["e"] = E(x->getArgument()); return o; }
    if (auto* x = dyn_cast<UnaryOperator>(e)) {
      set("un");
      o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      if (x->isPostfix()) o["post"] = true;
      o["e"] = E(x->getSubExpr());
      return o;
    }
    if (auto* x = dyn_cast<BinaryOperator>(e)) {
      set(x->isAssignmentOp() ? "assign" : "bin");
      o["op"] = x->getOpcodeStr().str();
      o["L"] = E(x->getLHS());
      o["R"] = E(x->getRHS());
      return o;
    }
    if (auto* x = dyn_cast<BinaryConditionalOperator>(e)) {
      set("cond");
      o["c"] = E(x->getCommon());
      o["T"] = E(x->getCommon());
      o["F"] = E(x->getFalseExpr());
      return o;
    }
    if (auto* x = dyn_cast<ConditionalOperator>(e)) {
      set("cond");
      o["c"] = E(x->getCond());
      o["T"] = E(x->getTrueExpr());
      o["F"] = E(x->getFalseExpr());
      return o;
    }
    if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) {
      set("sub");
      o["b"] = E(x->getBase());
      o["i"] = E(x->getIdx());
      return o;
    }
    if (auto* x = dyn_cast<CXXFunctionalCastExpr>(e)) {
      set("cast");
      o["ck"] = CastExpr::getCastKindName(x->getCastKind());
      o["style"] = "functional";
      o["e"] = E(x->getSubExpr());
      return o;
    }
    if (auto* x = dyn_cast<ExplicitCastExpr>(e)) {
      set("cast");
      o["ck"] = CastExpr::getCastKindName(x->getCastKind());
      if (isa<CXXStaticCastExpr>(x)) o["style"] = "static";
      else if (isa<CXXDynamicCastExpr>(x)) o["style"] = "dynamic";
      else if (isa<CXXReinterpretCastExpr>(x)) o["style"] = "reinterpret";
      else if (isa<CXXConstCastExpr>(x)) o["style"] = "const";
      else o["style"] = "c";
      o["tt"] = T(x->getTypeAsWritten());
      o["e"] = E(x->getSubExpr());
      return o;
    }
    if (auto* x = dyn_cast<LambdaExpr>(e)) {
      set("lambda");
      Array caps;
      auto ii = x->capture_init_begin();
      for (auto& c : x->captures()) {
        Object co;
        if (c.capturesThis()) co["this"] = true;
        else if (c.capturesVariable()) {
          co["n"] = c.getCapturedVar()->getNameAsString();
          co["id"] = localId(c.getCapturedVar());
          co["ref"] = c.getCaptureKind() == LCK_ByRef;
          if (auto* vd = dyn_cast<VarDecl>(c.getCapturedVar()))
            if (vd->isInitCapture()) co["init"] = E(vd->getInit());
        }
        caps.push_back(std::move(co));
        ++ii;
      }
      o["caps"] = std::move(caps);
      auto* m = x->getCallOperator();
      o["u"] = usr(m);
      o["ps"] = params(m);
      o["rt"] = T(m->getReturnType());
      o["body"] = S(x->getBody());
      if (m->getTemplatedKind() == FunctionDecl::TK_FunctionTemplate || m->getDescribedFunctionTemplate()) {
        Array insts;
        if (auto* ft = m->getDescribedFunctionTemplate())
          for (auto* sp : ft->specializations()) {
            if (!sp->hasBody()) continue;
            Object io;
            io["u"] = usr(sp);
            io["ps"] = params(sp);
            io["body"] = S(sp->getBody());
            insts.push_back(std::move(io));
          }
        o["insts"] = std::move(insts);
      }
      return o;
    }
    if (auto* x = dyn_cast<InitListExpr>(e)) {
      set("init");
      if (auto* s = x->getSemanticForm()) x = s;
      Array a;
      for (auto* i : x->inits()) a.push_back(E(i));
      o["a"] = std::move(a);
      if (x->getInitializedFieldInUnion()) o["ufield"] = x->getInitializedFieldInUnion()->getNameAsString();
      if (x->hasArrayFiller()) o["filler"] = true;
      return o;
    }
    if (auto* x = dyn_cast<DesignatedInitExpr>(e)) { set("desig"); o["e"] = E(x->getInit()); return o; }
    if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) { set("zero"); return o; }
    if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
      set("sizeof");
      Expr::EvalResult r;
      if (!e->isValueDependent() && x->EvaluateAsInt(r, C)) o["v"] = (int64_t)r.Val.getInt().getLimitedValue();
      return o;
    }
    if (auto* x = dyn_cast<CXXThrowExpr>(e)) { set("throw"); o["e"] = E(x->getSubExpr()); 
      if (x->getSubExpr()) o["tt"] = T(x->getSubExpr()->getType());
      return o; }
    if (auto* x = dyn_cast<CXXTypeidExpr>(e)) { set("typeid"); if (!x->isTypeOperand()) o["e"] = E(x->getExprOperand()); else o["tt"] = T(x->getTypeOperand(C)); return o; }
    if (auto* x = dyn_cast<UnresolvedLookupExpr>(e)) { set("ulookup"); o["n"] = x->getName().getAsString(); return o; }
    if (auto* x = dyn_cast<UnresolvedMemberExpr>(e)) { set("umember"); o["n"] = x->getMemberName().getAsString(); if (!x->isImplicitAccess()) o["b"] = E(x->getBase()); return o; }
    if (auto* x = dyn_cast<CXXDependentScopeMemberExpr>(e)) { set("umember"); o["n"] = x->getMember().getAsString(); if (!x->isImplicitAccess()) o["b"] = E(x->getBase()); return o; }
    if (auto* x = dyn_cast<DependentScopeDeclRefExpr>(e)) { set("ulookup"); o["n"] = x->getDeclName().getAsString(); return o; }
    if (auto* x = dyn_cast<CXXUnresolvedConstructExpr>(e)) {
      set("uctor"); o["tt"] = T(x->getTypeAsWritten());
      Array a; for (unsigned i = 0; i < x->getNumArgs(); ++i) a.push_back(E(x->getArg(i)));
      o["a"] = std::move(a); return o;
    }
    if (auto* x = dyn_cast<ParenListExpr>(e)) {
      set("plist"); Array a; for (unsigned i = 0; i < x->getNumExprs(); ++i) a.push_back(E(x->getExpr(i)));
      o["a"] = std::move(a); return o;
    }
    if (auto* x = dyn_cast<PackExpansionExpr>(e)) { set("pack"); o["e"] = E(x->getPattern()); return o; }
    if (auto* x = dyn_cast<OpaqueValueExpr>(e)) { if (x->getSourceExpr()) return E(x->getSourceExpr()); set("opaque"); return o; }
    if (auto* x = dyn_cast<ArrayInitLoopExpr>(e)) { set("arraycopy"); o["e"] = E(x->getCommonExpr()); return o; }
    if (auto* x = dyn_cast<TypeTraitExpr>(e)) { set("bool"); if (!x->isValueDependent()) o["v"] = x->getValue(); return o; }
    if (auto* x = dyn_cast<CXXNoexceptExpr>(e)) { set("bool"); if (!x->isValueDependent()) o["v"] = x->getValue(); return o; }
    if (auto* x = dyn_cast<CXXPseudoDestructorExpr>(e)) { set("pdtor"); o["b"] = E(x->getBase()); return o; }
    set("other");
    o["cls"] = e->getStmtClassName();
    Array ch;
    for (auto* c : e->children())
      if (auto* ce = dyn_cast_or_null<Expr>(c)) ch.push_back(E(ce));
    o["ch"] = std::move(ch);
    return o;
  }

  void declRef(Object& o, const ValueDecl* d) {
    o["n"] = d->getNameAsString();
    if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
      o["dk"] = "enum";
      o["v"] = I64(ec->getInitVal());
      o["en"] = qn(cast<NamedDecl>(ec->getDeclContext()));
      return;
    }
    if (auto* f = dyn_cast<FunctionDecl>(d)) {
      o["dk"] = "func";
      o["qn"] = qn(f);
      o["u"] = usr(f);
      return;
    }
    if (auto* p = dyn_cast<ParmVarDecl>(d)) { o["dk"] = "param"; o["id"] = localId(p); return; }
    if (auto* b = dyn_cast<BindingDecl>(d)) { o["dk"] = "binding"; o["id"] = localId(b); return; }
    if (auto* v = dyn_cast<VarDecl>(d)) {
      if (v->hasGlobalStorage() && !v->isStaticLocal()) { o["dk"] = "global"; o["qn"] = qn(v); o["u"] = usr(v); }
      else { o["dk"] = "var"; o["id"] = localId(v); if (v->isStaticLocal()) o["static"] = true; }
      if (v->getType().isConstQualified() && v->getType()->isIntegralOrEnumerationType() && v->getAnyInitializer())
        if (auto* val = v->getEvaluatedValue())
          if (val->isInt() && val->getInt().getSignificantBits() <= 62) o["v"] = I64(val->getInt());
      return;
    }
    o["dk"] = d->getDeclKindName();
    o["qn"] = qn(d);
  }

  void callee(Object& o, const CallExpr* x) {
    if (auto* fd = dyn_cast_or_null<FunctionDecl>(x->getCalleeDecl())) {
      o["n"] = qn(fd);
      o["u"] = usr(fd);
      if (auto* m = dyn_cast<CXXMethodDecl>(fd)) {
        o["cls"] = qn(m->getParent());
        if (m->isVirtual()) o["virt"] = true;
        if (m->isStatic()) o["sm"] = true;
        if (m->isConst()) o["cm"] = true;
      }
      if (fd->isNoReturn()) o["noret"] = true;
      if (auto* ta = fd->getTemplateSpecializationArgs()) {
        Array a;
        targs(a, ta->asArray());
        o["ta"] = std::move(a);
      }
    }
  }
  void targs(Array& a, llvm::ArrayRef<TemplateArgument> ta) {
    for (auto& t : ta) {
      if (t.getKind() == TemplateArgument::Type) a.push_back(types[T(t.getAsType())]);
      else if (t.getKind() == TemplateArgument::Integral) {
        std::string s; llvm::raw_string_ostream os(s); t.print(PP, os, false); a.push_back(os.str());
      } else if (t.getKind() == TemplateArgument::Pack) { targs(a, t.getPackAsArray()); }
      else if (t.getKind() == TemplateArgument::Declaration) a.push_back(qn(t.getAsDecl()));
      else a.push_back("?");
    }
  }

  Value params(const FunctionDecl* f) {
    Array a;
    for (auto* p : f->parameters()) {
      Object o{{"n", p->getNameAsString()}, {"id", localId(p)}, {"t", T(p->getType())}};
      if (p->hasDefaultArg()) o["def"] = true;
      if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg())
        o["dv"] = E(p->getDefaultArg());
      a.push_back(std::move(o));
    }
    return a;
  }

  // ---------------------------------------------------------------- stmt
  Value VD(const VarDecl* v) {
    Object o{{"n", v->getNameAsString()}, {"id", localId(v)}, {"t", T(v->getType())}, {"l", line(v->getLocation())}};
    if (v->isStaticLocal()) o["static"] = true;
    if (v->getInit()) o["init"] = E(v->getInit());
    if (auto* d = dyn_cast<DecompositionDecl>(v)) {
      Array b;
      for (auto* bd : d->bindings()) {
        Object bo{{"n", bd->getNameAsString()}, {"id", localId(bd)}, {"t", T(bd->getType())}};
        if (bd->getBinding()) {
          if (auto* hv = bd->getHoldingVar()) { if (hv->getInit()) bo["e"] = E(hv->getInit()); }
          else bo["e"] = E(bd->getBinding());
        }
        b.push_back(std::move(bo));
      }
      o["bind"] = std::move(b);
    }
    return o;
  }
  Value S(const Stmt* s) {
    if (!s) return nullptr;
    if (auto* e = dyn_cast<Expr>(s)) {
      Object o{{"s", "expr"}, {"l", line(e->getBeginLoc())}, {"e", E(e)}};
      return o;
    }
    Object o;
    o["l"] = line(s->getBeginLoc());
    auto set = [&](const char* k) { o["s"] = k; };
    if (auto* x = dyn_cast<CompoundStmt>(s)) {
      set("block");
      Array a;
      for (auto* c : x->body()) a.push_back(S(c));
      o["b"] = std::move(a);
      o["el"] = line(x->getEndLoc());
      return o;
    }
    if (auto* x = dyn_cast<DeclStmt>(s)) {
      set("decl");
      Array a;
      for (auto* d : x->decls())
        if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(VD(v));
      o["v"] = std::move(a);
      return o;
    }
    if (auto* x = dyn_cast<IfStmt>(s)) {
      set("if");
      if (x->isConstexpr()) o["constexpr"] = true;
      if (x->getInit()) o["init"] = S(x->getInit());
      if (x->getConditionVariable()) o["var"] = VD(x->getConditionVariable());
      o["c"] = E(x->getCond());
      if (x->isConstexpr() && !x->getCond()->isValueDependent()) {
        Expr::EvalResult r;
        if (x->getCond()->EvaluateAsInt(r, C)) o["cv"] = r.Val.getInt().getBoolValue();
      }
      o["T"] = S(x->getThen());
      if (x->getElse()) o["F"] = S(x->getElse());
      return o;
    }
    if (auto* x = dyn_cast<WhileStmt>(s)) { set("while"); if (x->getConditionVariable()) o["var"] = VD(x->getConditionVariable()); o["c"] = E(x->getCond()); o["b"] = S(x->getBody()); return o; }
    if (auto* x = dyn_cast<DoStmt>(s)) { set("do"); o["c"] = E(x->getCond()); o["b"] = S(x->getBody()); return o; }
    if (auto* x = dyn_cast<ForStmt>(s)) {
      set("for"); if (x->getInit()) o["init"] = S(x->getInit()); if (x->getCond()) o["c"] = E(x->getCond());
      if (x->getInc()) o["inc"] = E(x->getInc()); o["b"] = S(x->getBody()); return o;
    }
    if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
      set("range"); o["v"] = VD(x->getLoopVariable()); o["r"] = E(x->getRangeInit()); 
      if (x->getInit()) o["init"] = S(x->getInit());
      o["b"] = S(x->getBody()); return o;
    }
    if (auto* x = dyn_cast<SwitchStmt>(s)) { set("switch"); if (x->getInit()) o["init"] = S(x->getInit()); if (x->getConditionVariable()) o["var"] = VD(x->getConditionVariable()); o["c"] = E(x->getCond()); o["b"] = S(x->getBody()); return o; }
    if (auto* x = dyn_cast<CaseStmt>(s)) {
      set("case"); o["v"] = E(x->getLHS());
      Expr::EvalResult r;
      if (!x->getLHS()->isValueDependent() && x->getLHS()->EvaluateAsInt(r, C)) o["cv"] = I64(r.Val.getInt());
      o["b"] = S(x->getSubStmt()); return o;
    }
    if (auto* x = dyn_cast<DefaultStmt>(s)) { set("default"); o["b"] = S(x->getSubStmt()); return o; }
    if (auto* x = dyn_cast<ReturnStmt>(s)) { set("return"); if (x->getRetValue()) o["e"] = E(x->getRetValue()); return o; }
    if (isa<BreakStmt>(s)) { set("break"); return o; }
    if (isa<ContinueStmt>(s)) { set("continue"); return o; }
    if (isa<NullStmt>(s)) { set("null"); return o; }
    if (auto* x = dyn_cast<CXXTryStmt>(s)) {
      set("try"); o["b"] = S(x->getTryBlock());
      Array h;
      for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
        auto* c = x->getHandler(i);
        Object ho{{"l", line(c->getBeginLoc())}};
        if (c->getExceptionDecl()) ho["v"] = VD(c->getExceptionDecl());
        ho["b"] = S(c->getHandlerBlock());
        h.push_back(std::move(ho));
      }
      o["h"] = std::move(h);
      return o;
    }
    if (auto* x = dyn_cast<AttributedStmt>(s)) return S(x->getSubStmt());
    if (auto* x = dyn_cast<LabelStmt>(s)) { set("label"); o["n"] = x->getName(); o["b"] = S(x->getSubStmt()); return o; }
    if (auto* x = dyn_cast<GotoStmt>(s)) { set("goto"); o["n"] = x->getLabel()->getNameAsString(); return o; }
    set("other");
    o["cls"] = s->getStmtClassName();
    return o;
  }

  // ---------------------------------------------------------------- decls
  bool VisitFunctionDecl(FunctionDecl* f) {
    std::string rel;
    if (!f->doesThisDeclarationHaveABody() && !(f->isDefaulted() && f->isThisDeclarationADefinition())) {
      return true;
    }
    if (!inRoot(f->getLocation(), &rel)) return true;
    if (auto* m = dyn_cast<CXXMethodDecl>(f))
      if (m->getParent()->isLambda()) return true;
    if (!done.insert(f).second) return true;
    functions.push_back(FN(f, rel));
    return true;
  }
  Value FN(const FunctionDecl* f, const std::string& rel) {
    Object o{{"u", usr(f)}, {"n", qn(f)}, {"file", rel}, {"l", line(f->getLocation())}, {"el", line(f->getEndLoc())}, {"rt", T(f->getReturnType())}};
    o["ps"] = params(f);
    if (f->isDefaulted()) o["defaulted"] = true;
    if (f->isVariadic()) o["variadic"] = true;
    if (f->isDependentContext()) o["tmpl"] = true;
    if (f->isTemplateInstantiation()) {
      o["inst"] = true;
    }
    if (f->isInAnonymousNamespace() || f->getFormalLinkage() == Linkage::Internal) o["internal"] = true;
    if (auto* ta = f->getTemplateSpecializationArgs()) {
      Array a; targs(a, ta->asArray()); o["ta"] = std::move(a);
    }
    if (auto* fpt = f->getType()->getAs<FunctionProtoType>()) if (!isUnresolvedExceptionSpec(fpt->getExceptionSpecType()) && fpt->isNothrow()) o["noexcept"] = true;
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      o["cls"] = qn(m->getParent());
      o["cu"] = usr(m->getParent());
      if (m->isVirtual()) o["virt"] = true;
      if (m->isConst()) o["const"] = true;
      if (m->isStatic()) o["static"] = true;
      o["acc"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private";
      if (m->isCopyAssignmentOperator()) o["sp"] = "copy=";
      if (m->isMoveAssignmentOperator()) o["sp"] = "move=";
      Array ov;
      for (auto* b : m->overridden_methods()) ov.push_back(usr(b));
      if (!ov.empty()) o["ov"] = std::move(ov);
    }
    if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
      o["ctor"] = true;
      if (c->isCopyConstructor()) o["sp"] = "copy";
      if (c->isMoveConstructor()) o["sp"] = "move";
      Array in;
      for (auto* i : c->inits()) {
        Object io;
        if (i->isBaseInitializer()) io["base"] = types[T(QualType(i->getBaseClass(), 0))];
        else if (i->isDelegatingInitializer()) io["deleg"] = true;
        else if (i->getAnyMember()) io["f"] = i->getAnyMember()->getNameAsString();
        if (i->isWritten()) io["w"] = true;
        io["e"] = E(i->getInit());
        in.push_back(std::move(io));
      }
      o["inits"] = std::move(in);
    }
    if (isa<CXXDestructorDecl>(f)) o["dtor"] = true;
    if (f->getBody()) o["body"] = S(f->getBody());
    return o;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* r) {
    std::string rel;
    if (!r->isThisDeclarationADefinition() || r->isLambda()) return true;
    if (!inRoot(r->getLocation(), &rel)) return true;
    if (!done.insert(r).second) return true;
    Object o{{"u", usr(r)}, {"n", qn(r)}, {"file", rel}, {"l", line(r->getLocation())}};
    if (r->isDependentContext()) o["tmpl"] = true;
    if (r->isUnion()) o["union"] = true;
    if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(r)) { o["inst"] = true; Array a; targs(a, sp->getTemplateArgs().asArray()); o["ta"] = std::move(a); }
    if (r->isPolymorphic() && !r->isDependentType()) o["poly"] = true;
    Array b;
    for (auto& base : r->bases()) {
      Object bo{{"t", types[T(base.getType())]}};
      if (auto* br = base.getType()->getAsCXXRecordDecl()) { bo["n"] = qn(br); bo["u"] = usr(br); }
      b.push_back(std::move(bo));
    }
    o["bases"] = std::move(b);
    Array fs;
    for (auto* d : r->decls()) {
      if (auto* fd = dyn_cast<FieldDecl>(d)) {
        Object fo{{"n", fd->getNameAsString()}, {"t", T(fd->getType())}, {"l", line(fd->getLocation())}, {"u", usr(fd)}};
        if (fd->isMutable()) fo["mutable"] = true;
        if (fd->hasInClassInitializer() && fd->getInClassInitializer()) fo["init"] = E(fd->getInClassInitializer());
        else if (fd->hasInClassInitializer()) fo["init"] = Object{{"k","uninst"}};
        fo["acc"] = fd->getAccess() == AS_public ? "public" : fd->getAccess() == AS_protected ? "protected" : "private";
        if (fd->isBitField()) fo["bits"] = true;
        if (fd->isAnonymousStructOrUnion()) fo["anon"] = true;
        fs.push_back(std::move(fo));
      } else if (auto* vd = dyn_cast<VarDecl>(d)) {
        Object fo{{"n", vd->getNameAsString()}, {"t", T(vd->getType())}, {"l", line(vd->getLocation())}, {"static", true}, {"u", usr(vd)}};
        if (vd->getInit()) fo["init"] = E(vd->getInit());
        if (vd->isConstexpr()) fo["constexpr"] = true;
        fs.push_back(std::move(fo));
      }
    }
    o["fields"] = std::move(fs);
    Array ms;
    for (auto* m : r->methods()) {
      Object mo{{"u", usr(m)}, {"n", m->getNameAsString()}, {"l", line(m->getLocation())}, {"rt", T(m->getReturnType())}};
      Array ps; for (auto* p : m->parameters()) { Object po{{"n", p->getNameAsString()}, {"t", T(p->getType())}}; if (p->hasDefaultArg()) po["def"] = true; ps.push_back(std::move(po)); }
      mo["ps"] = std::move(ps);
      if (m->isVirtual()) mo["virt"] = true;
      if (m->isPureVirtual()) mo["pure"] = true;
      if (m->isDeleted()) mo["deleted"] = true;
      if (m->isDefaulted()) mo["defaulted"] = true;
      if (m->isImplicit()) mo["implicit"] = true;
      if (m->isConst()) mo["const"] = true;
      if (m->isStatic()) mo["static"] = true;
      if (isa<CXXConstructorDecl>(m)) { mo["ctor"] = true; auto* c = cast<CXXConstructorDecl>(m); if (c->isCopyConstructor()) mo["sp"] = "copy"; if (c->isMoveConstructor()) mo["sp"] = "move"; if (c->isDefaultConstructor()) mo["sp"] = "default"; }
      if (isa<CXXDestructorDecl>(m)) mo["dtor"] = true;
      if (m->isCopyAssignmentOperator()) mo["sp"] = "copy=";
      if (m->isMoveAssignmentOperator()) mo["sp"] = "move=";
      mo["acc"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private";
      Array ov; for (auto* bm : m->overridden_methods()) ov.push_back(usr(bm));
      if (!ov.empty()) mo["ov"] = std::move(ov);
      ms.push_back(std::move(mo));
    }
    for (auto* d : r->decls()) if (auto* ft = dyn_cast<FunctionTemplateDecl>(d)) {
      Object mo{{"u", usr(ft->getTemplatedDecl())}, {"n", ft->getNameAsString()}, {"l", line(ft->getLocation())}, {"template", true}};
      mo["acc"] = ft->getAccess() == AS_public ? "public" : ft->getAccess() == AS_protected ? "protected" : "private";
      ms.push_back(std::move(mo));
    }
    o["methods"] = std::move(ms);
    classes.push_back(std::move(o));
    return true;
  }
  bool VisitEnumDecl(EnumDecl* d) {
    std::string rel;
    if (!d->isThisDeclarationADefinition() || !inRoot(d->getLocation(), &rel)) return true;
    if (!done.insert(d).second) return true;
    Object o{{"n", qn(d)}, {"file", rel}, {"l", line(d->getLocation())}};
    if (d->isScoped()) o["scoped"] = true;
    Array a;
    for (auto* c : d->enumerators()) {
      Object co{{"n", c->getNameAsString()}, {"v", I64(c->getInitVal())}};
      a.push_back(std::move(co));
    }
    o["c"] = std::move(a);
    enums.push_back(std::move(o));
    return true;
  }
  bool VisitVarDecl(VarDecl* v) {
    std::string rel;
    if (!v->hasGlobalStorage() || !inRoot(v->getLocation(), &rel)) return true;
    if (isa<ParmVarDecl>(v)) return true;
    if (!v->isThisDeclarationADefinition() && !v->isStaticDataMember()) return true;
    if (!done.insert(v).second) return true;
    Object o{{"n", v->getNameAsString()}, {"qn", qn(v)}, {"u", usr(v)}, {"file", rel}, {"l", line(v->getLocation())}, {"t", T(v->getType())}};
    if (v->isStaticLocal()) { o["slocal"] = true; if (auto* f = dyn_cast<FunctionDecl>(v->getDeclContext())) o["in"] = qn(f); }
    if (v->isConstexpr()) o["constexpr"] = true;
    if (v->getType().isConstQualified()) o["const"] = true;
    if (v->isStaticDataMember()) o["smember"] = true;
    if (v->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
    if (v->getInit()) o["init"] = E(v->getInit());
    globals.push_back(std::move(o));
    return true;
  }
};

std::string OUT;
bool HadError = false;
class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext& C) override {
    if (C.getDiagnostics().hasErrorOccurred()) HadError = true;
    Dumper D(C);
    D.TraverseDecl(C.getTranslationUnitDecl());
    std::error_code ec;
    llvm::raw_fd_ostream os(OUT, ec);
    Array ts;
    for (auto& t : D.types) ts.push_back(J::isUTF8(t) ? t : J::fixUTF8(t));
    Object top{{"types", std::move(ts)}, {"functions", std::move(D.functions)}, {"classes", std::move(D.classes)}, {"enums", std::move(D.enums)}, {"globals", std::move(D.globals)}};
    os << Value(std::move(top));
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override {
    return std::make_unique<Consumer>();
  }
};
} // namespace

int main(int argc, const char** argv) {
  if (argc < 5) return 2;
  OUT = argv[1];
  ROOT = argv[2];
  std::string file = argv[3];
  if (file.find("/extractor/aux/") != std::string::npos) MAINAUX = file;
  std::vector<std::string> flags;
  for (int i = 5; i < argc; ++i) flags.emplace_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {file});
  int rc = tool.run(tooling::newFrontendActionFactory<Action>().get());
  return (rc != 0 || HadError) ? 1 : 0;
}
