// astfacts: exports a compact, type-resolved view of every function that is
// defined in the analysed tree (or in the sources generated from it).
//
// usage: astfacts OUT.json ROOT[:ROOT...] SOURCE -- <clang args>
#include <map>
#include <set>
#include <string>
#include <system_error>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
namespace json = llvm::json;

static std::string gOut;
static std::vector<std::string> gRoots;

namespace {
json::Value Big(const llvm::APSInt& v) {
  if (v.isRepresentableByInt64()) return v.getExtValue();
  if (v.isUnsigned() && v.getActiveBits() <= 64) return static_cast<uint64_t>(v.getZExtValue());
  return static_cast<double>(0);
}


std::string Utf8(llvm::StringRef s) {
  // Bytes are exported as the code points 0..255 so that nothing is lost.
  std::string r;
  for (unsigned char c : s) {
    if (c < 0x80) {
      r += c;
    } else {
      r += char(0xC0 | (c >> 6));
      r += char(0x80 | (c & 0x3F));
    }
  }
  return r;
}

class Exporter : public RecursiveASTVisitor<Exporter> {
 public:
  explicit Exporter(ASTContext& c)
      : ctx(c), sm(c.getSourceManager()), names(c), pp(c.getPrintingPolicy()) {
    pp.SuppressTagKeyword = true;
    pp.Bool = true;
    pp.SuppressInlineNamespace = true;
    pp.SuppressUnwrittenScope = false;
  }

  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool shouldVisitLambdaBody() const { return true; }

  // ---------------------------------------------------------------- locations
  std::string PhysFile(SourceLocation l) {
    l = sm.getExpansionLoc(l);
    auto f = sm.getFilename(l);
    if (f.empty()) return "";
    auto fe = sm.getFileEntryRefForID(sm.getFileID(l));
    if (fe) {
      auto rp = fe->getFileEntry().tryGetRealPathName();
      if (!rp.empty()) return rp.str();
    }
    return f.str();
  }
  bool InRoots(SourceLocation l) {
    if (l.isInvalid()) return false;
    std::string f = PhysFile(l);
    for (auto& r : gRoots)
      if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  std::string Loc(SourceLocation l) {
    auto p = sm.getPresumedLoc(sm.getExpansionLoc(l));
    if (p.isInvalid()) return "?";
    return std::string(p.getFilename()) + ":" + std::to_string(p.getLine());
  }
  int Line(SourceLocation l) {
    auto p = sm.getPresumedLoc(sm.getExpansionLoc(l));
    return p.isInvalid() ? 0 : p.getLine();
  }
  std::string VarId(const ValueDecl* d) {
    auto l = sm.getExpansionLoc(d->getLocation());
    auto sl = d->getLocation();
    return d->getNameAsString() + "#" + std::to_string(sm.getFileOffset(l)) +
           (sl.isMacroID() ? "m" + std::to_string(sl.getRawEncoding()) : "");
  }

  // ---------------------------------------------------------------- types
  std::string Ty(QualType t) {
    if (t.isNull()) return "?";
    if (t->isDependentType()) return "?dep";
    std::string s = t.getCanonicalType().getAsString(pp);
    if (s.size() > 240) {
      if (auto* r = t->getAsCXXRecordDecl()) return "~" + r->getQualifiedNameAsString();
      s = "~" + s.substr(0, 100);
    }
    return s;
  }
  std::string TargetTy(QualType t) {
    return Ty(t.getNonReferenceType().getUnqualifiedType());
  }

  std::string Key(const FunctionDecl* f) {
    f = f->getCanonicalDecl();
    auto it = keys.find(f);
    if (it != keys.end()) return it->second;
    std::string k;
    bool lambda = false;
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) lambda = m->getParent()->isLambda();
    if (lambda) {
      k = "lambda@" + PhysFile(f->getLocation()) + "#" +
          std::to_string(sm.getFileOffset(sm.getExpansionLoc(f->getLocation())));
      if (f->isTemplateInstantiation()) k += Ty(f->getType());
    } else if (isa<CXXConstructorDecl>(f) || isa<CXXDestructorDecl>(f)) {
      k = "S:" + f->getQualifiedNameAsString() + "|" + Ty(f->getType()) + "|" +
          Ty(ctx.getRecordType(cast<CXXMethodDecl>(f)->getParent()));
    } else {
      k = names.getName(f);
      if (k.empty()) k = "Q:" + f->getQualifiedNameAsString() + Ty(f->getType());
    }
    if (f->getFormalLinkage() == Linkage::Internal ||
        f->isInAnonymousNamespace())
      k += "@" + PhysFile(f->getLocation());
    keys[f] = k;
    return k;
  }

  json::Value Fn(const FunctionDecl* f) {
    json::Object o;
    o["q"] = f->getQualifiedNameAsString();
    o["m"] = Key(f);
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      if (m->isVirtual()) o["virt"] = true;
      if (m->isConst()) o["const"] = true;
      if (m->isStatic()) o["static"] = true;
      o["cls"] = Ty(ctx.getRecordType(m->getParent()));
      if (m->getParent()->isLambda()) o["lam"] = true;
      if ((m->isCopyAssignmentOperator() || m->isMoveAssignmentOperator()))
        o["asg"] = m->isMoveAssignmentOperator() ? "move" : "copy";
      if (m->isCopyAssignmentOperator() || m->isMoveAssignmentOperator()) {
        if (m->isDefaulted() || m->isImplicit()) o["dflt"] = true;
      }
    }
    const FunctionDecl* def = nullptr;
    if (f->hasBody(def)) {
      if (InRoots(def->getLocation())) o["in"] = true;
    } else if (InRoots(f->getLocation())) {
      o["in"] = true;
    }
    if (auto* ta = f->getTemplateSpecializationArgs()) {
      json::Array a;
      for (auto& x : ta->asArray()) {
        if (x.getKind() == TemplateArgument::Type) a.push_back(Ty(x.getAsType()));
        else {
          std::string s;
          llvm::raw_string_ostream os(s);
          x.print(pp, os, true);
          a.push_back(os.str().substr(0, 200));
        }
      }
      o["ta"] = std::move(a);
    }
    std::string pk;
    for (auto* p : f->parameters()) pk += ParamKind(p->getType());
    if (f->isVariadic()) pk += "*";
    o["pk"] = pk;
    o["rt"] = Ty(f->getReturnType());
    return o;
  }
  char ParamKind(QualType t) {
    if (t->isRValueReferenceType()) return 'x';
    if (t->isLValueReferenceType())
      return t->getPointeeType().isConstQualified() ? 'r' : 'm';
    if (t->isPointerType())
      return t->getPointeeType().isConstQualified() ? 'c' : 'p';
    return 'v';
  }

  // ---------------------------------------------------------------- exprs
  json::Object N(const char* k, const Expr* e) {
    json::Object o;
    o["k"] = k;
    o["l"] = Line(e->getExprLoc());
    o["t"] = Ty(e->getType());
    return o;
  }
  json::Object N(const char* k, const Stmt* s) {
    json::Object o;
    o["k"] = k;
    o["l"] = Line(s->getBeginLoc());
    return o;
  }

  json::Value E(const Expr* e) {
    if (!e) return nullptr;
    // transparent wrappers
    if (auto* x = dyn_cast<ExprWithCleanups>(e)) return E(x->getSubExpr());
    if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) {
      return E(x->getSubExpr());
    }
    if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) return E(x->getSubExpr());
    if (auto* x = dyn_cast<ParenExpr>(e)) return E(x->getSubExpr());
    if (auto* x = dyn_cast<ConstantExpr>(e)) return E(x->getSubExpr());
    if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e))
      return E(x->getReplacement());
    if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) {
      auto v = E(x->getExpr());
      if (auto* ob = v.getAsObject()) (*ob)["dfl"] = true;
      return v;
    }
    if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) return E(x->getExpr());
    if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) {
      auto v = E(x->getSubExpr());
      if (auto* ob = v.getAsObject()) (*ob)["il"] = true;
      return v;
    }
    if (auto* x = dyn_cast<OpaqueValueExpr>(e))
      return x->getSourceExpr() ? E(x->getSourceExpr()) : json::Value(nullptr);

    if (auto* x = dyn_cast<IntegerLiteral>(e)) {
      auto o = N("int", e);
      o["v"] = (int64_t)x->getValue().getLimitedValue(INT64_MAX);
      return o;
    }
    if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) {
      auto o = N("bool", e);
      o["v"] = x->getValue();
      return o;
    }
    if (auto* x = dyn_cast<CharacterLiteral>(e)) {
      auto o = N("int", e);
      o["v"] = (int64_t)x->getValue();
      o["chr"] = true;
      return o;
    }
    if (auto* x = dyn_cast<FloatingLiteral>(e)) {
      auto o = N("flt", e);
      o["v"] = x->getValueAsApproximateDouble();
      return o;
    }
    if (auto* x = dyn_cast<clang::StringLiteral>(e)) {
      auto o = N("str", e);
      o["v"] = Utf8(x->getBytes());
      return o;
    }
    if (auto* x = dyn_cast<PredefinedExpr>(e)) {
      auto o = N("str", e);
      o["v"] = Utf8(x->getFunctionName() ? x->getFunctionName()->getBytes() : "");
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) return N("null", e);
    if (isa<CXXThisExpr>(e)) return N("this", e);

    if (auto* x = dyn_cast<DeclRefExpr>(e)) return Ref(x->getDecl(), e);
    if (auto* x = dyn_cast<MemberExpr>(e)) {
      auto* d = x->getMemberDecl();
      if (auto* vd = dyn_cast<VarDecl>(d)) return Ref(vd, e);
      if (isa<EnumConstantDecl>(d)) return Ref(cast<ValueDecl>(d), e);
      auto o = N("mem", e);
      o["b"] = E(x->getBase());
      o["n"] = d->getNameAsString();
      o["q"] = d->getQualifiedNameAsString();
      if (x->isArrow()) o["arrow"] = true;
      if (auto* fd = dyn_cast<FieldDecl>(d)) {
        if (fd->getType()->isReferenceType()) o["fref"] = true;
      }
      return o;
    }
    if (auto* x = dyn_cast<UnaryOperator>(e)) {
      auto o = N("un", e);
      o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str() +
                (x->isPostfix() ? "post" : "");
      o["e"] = E(x->getSubExpr());
      return o;
    }
    if (auto* x = dyn_cast<CompoundAssignOperator>(e)) {
      auto o = N("asg", e);
      o["op"] = x->getOpcodeStr().str();
      o["lhs"] = E(x->getLHS());
      o["rhs"] = E(x->getRHS());
      o["ct"] = Ty(x->getComputationResultType());
      return o;
    }
    if (auto* x = dyn_cast<BinaryOperator>(e)) {
      bool asg = x->getOpcode() == BO_Assign;
      auto o = N(asg ? "asg" : "bin", e);
      o["op"] = x->getOpcodeStr().str();
      o["lhs"] = E(x->getLHS());
      o["rhs"] = E(x->getRHS());
      return o;
    }
    if (auto* x = dyn_cast<AbstractConditionalOperator>(e)) {
      auto o = N("cond", e);
      o["c"] = E(x->getCond());
      o["a"] = E(x->getTrueExpr());
      o["b"] = E(x->getFalseExpr());
      return o;
    }
    if (auto* x = dyn_cast<CXXDynamicCastExpr>(e)) {
      auto o = N("dcast", e);
      o["e"] = E(x->getSubExpr());
      o["to"] = TargetTy(x->getType()->isPointerType() ? x->getType()->getPointeeType() : x->getType());
      return o;
    }
    if (auto* x = dyn_cast<CastExpr>(e)) return Cast(x);
    if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) {
      auto o = N("idx", e);
      o["b"] = E(x->getBase());
      o["i"] = E(x->getIdx());
      return o;
    }
    if (auto* x = dyn_cast<LambdaExpr>(e)) {
      auto o = N("lam", e);
      o["fn"] = Key(x->getCallOperator());
      json::Array caps;
      auto ci = x->capture_init_begin();
      for (auto& c : x->captures()) {
        json::Object co;
        if (c.capturesThis()) co["this"] = true;
        else if (c.capturesVariable()) {
          co["id"] = VarId(cast<ValueDecl>(c.getCapturedVar()));
          co["n"] = c.getCapturedVar()->getNameAsString();
          if (auto* vd = dyn_cast<VarDecl>(c.getCapturedVar()))
            if (vd->isInitCapture()) co["init"] = true;
        }
        co["ref"] = c.getCaptureKind() == LCK_ByRef;
        if (ci != x->capture_init_end()) {
          if (*ci) co["e"] = E(*ci);
          ++ci;
        }
        caps.push_back(std::move(co));
      }
      o["caps"] = std::move(caps);
      return o;
    }
    if (auto* x = dyn_cast<InitListExpr>(e)) {
      const InitListExpr* s = x->isSemanticForm() ? x : x->getSemanticForm();
      if (!s) s = x;
      if (s->isTransparent() && s->getNumInits() == 1) return E(s->getInit(0));
      auto o = N("list", e);
      json::Array a;
      for (unsigned i = 0; i < s->getNumInits(); i++) a.push_back(E(s->getInit(i)));
      o["a"] = std::move(a);
      if (s->hasArrayFiller() && s->getArrayFiller())
        o["fill"] = E(s->getArrayFiller());
      if (auto* r = s->getType()->getAsCXXRecordDecl()) {
        json::Array fs;
        for (auto* f : r->fields()) fs.push_back(f->getNameAsString());
        o["fields"] = std::move(fs);
      }
      return o;
    }
    if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) return N("zero", e);
    if (auto* x = dyn_cast<CXXTemporaryObjectExpr>(e)) return Ctor(x);
    if (auto* x = dyn_cast<CXXConstructExpr>(e)) return Ctor(x);
    if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
      auto o = N("inhctor", e);
      o["f"] = Fn(x->getConstructor());
      return o;
    }
    if (auto* x = dyn_cast<CXXNewExpr>(e)) {
      auto o = N("new", e);
      o["of"] = Ty(x->getAllocatedType());
      if (x->isArray()) {
        o["array"] = true;
        if (x->getArraySize() && *x->getArraySize()) o["n"] = E(*x->getArraySize());
      }
      if (x->getInitializer()) o["init"] = E(x->getInitializer());
      return o;
    }
    if (auto* x = dyn_cast<CXXDeleteExpr>(e)) {
      auto o = N("del", e);
      o["e"] = E(x->getArgument());
      return o;
    }
    if (auto* x = dyn_cast<CXXThrowExpr>(e)) {
      auto o = N("throw", e);
      if (x->getSubExpr()) o["e"] = E(x->getSubExpr());
      return o;
    }
    if (auto* x = dyn_cast<CallExpr>(e)) return Call(x);
    if (auto* x = dyn_cast<CXXTypeidExpr>(e)) {
      auto o = N("typeid", e);
      if (x->isTypeOperand()) o["to"] = Ty(x->getTypeOperand(ctx));
      else o["e"] = E(x->getExprOperand());
      return o;
    }
    // Anything whose value the compiler knows.
    if (!e->isValueDependent() && !e->isTypeDependent() &&
        e->getType()->isIntegralOrEnumerationType()) {
      Expr::EvalResult r;
      if (e->EvaluateAsInt(r, ctx)) {
        auto o = N(e->getType()->isBooleanType() ? "bool" : "int", e);
        if (e->getType()->isBooleanType()) o["v"] = r.Val.getInt().getBoolValue();
        else o["v"] = Big(r.Val.getInt());
        return o;
      }
    }
    auto o = N("opaque", e);
    o["cls"] = e->getStmtClassName();
    json::Array a;
    for (auto* c : e->children())
      if (auto* ce = dyn_cast_or_null<Expr>(c)) a.push_back(E(ce));
    o["a"] = std::move(a);
    return o;
  }

  json::Value Ref(const ValueDecl* d, const Expr* e) {
    if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
      auto o = N("int", e);
      o["v"] = Big(ec->getInitVal());
      o["enum"] = ec->getQualifiedNameAsString();
      return o;
    }
    if (auto* f = dyn_cast<FunctionDecl>(d)) {
      auto o = N("fnref", e);
      o["f"] = Fn(f);
      return o;
    }
    if (auto* b = dyn_cast<BindingDecl>(d)) {
      auto o = N("var", e);
      o["id"] = VarId(b);
      o["n"] = b->getNameAsString();
      o["bind"] = true;
      return o;
    }
    if (auto* v = dyn_cast<VarDecl>(d)) {
      bool local = v->isLocalVarDeclOrParm() && !v->isStaticLocal();
      if (v->isStaticDataMember()) local = false;
      const VarDecl* dv = nullptr;
      if (!v->getAnyInitializer(dv) || !dv || dv->getInit()->isValueDependent()) dv = nullptr;
      if (dv && !e->isValueDependent() && v->getType().isConstQualified() &&
          (v->getType()->isIntegralOrEnumerationType())) {
        if (const APValue* av = dv->isUsableInConstantExpressions(ctx) ? dv->evaluateValue() : nullptr) {
          if (av->isInt()) {
            auto o = N(v->getType()->isBooleanType() ? "bool" : "int", e);
            if (v->getType()->isBooleanType()) o["v"] = av->getInt().getBoolValue();
            else o["v"] = Big(av->getInt());
            o["cn"] = v->getQualifiedNameAsString();
            return o;
          }
        }
      }
      if (dv && v->getType().isConstQualified() && v->getType()->isFloatingType() &&
          dv->isUsableInConstantExpressions(ctx)) {
        if (const APValue* av = dv->evaluateValue()) {
          if (av->isFloat()) {
            auto o = N("flt", e);
            llvm::APFloat f = av->getFloat();
            bool li;
            f.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li);
            o["v"] = f.convertToDouble();
            o["cn"] = v->getQualifiedNameAsString();
            return o;
          }
        }
      }
      auto o = N("var", e);
      o["id"] = local ? VarId(v) : v->getQualifiedNameAsString();
      o["n"] = v->getNameAsString();
      if (!local) o["glob"] = true;
      if (v->isStaticLocal()) o["id"] = "static:" + VarId(v);
      if (v->getType()->isReferenceType()) o["ref"] = true;
      return o;
    }
    auto o = N("opaque", e);
    o["cls"] = "DeclRef";
    return o;
  }

  json::Value Cast(const CastExpr* x) {
    switch (x->getCastKind()) {
      case CK_ConstructorConversion:
      case CK_UserDefinedConversion:
      case CK_NoOp:
      case CK_LValueToRValue:
      case CK_FunctionToPointerDecay:
      case CK_ArrayToPointerDecay:
      case CK_DerivedToBase:
      case CK_UncheckedDerivedToBase:
      case CK_BuiltinFnToFnPtr:
      case CK_LValueBitCast:
        return E(x->getSubExpr());
      case CK_BaseToDerived: {
        auto o = N("cast", x);
        o["ck"] = x->getCastKindName();
        o["e"] = E(x->getSubExpr());
        return o;
      }
      case CK_NullToPointer:
        return N("null", x);
      case CK_ToVoid: {
        return E(x->getSubExpr());
      }
      case CK_IntegralCast: {
        auto v = E(x->getSubExpr());
        if (auto* ob = v.getAsObject()) {
          if (ob->getString("k") == llvm::StringRef("int") && !x->getSubExpr()->isValueDependent() && x->getType()->isIntegerType()) {
            Expr::EvalResult r;
            if (x->EvaluateAsInt(r, ctx)) {
              (*ob)["v"] = Big(r.Val.getInt());
              return v;
            }
          }
        }
        auto o = N("cast", x);
        o["ck"] = "IntegralCast";
        o["e"] = std::move(v);
        return o;
      }
      default: {
        auto o = N("cast", x);
        o["ck"] = x->getCastKindName();
        o["e"] = E(x->getSubExpr());
        return o;
      }
    }
  }

  json::Value Ctor(const CXXConstructExpr* x) {
    auto o = N("ctor", x);
    auto* c = x->getConstructor();
    o["c"] = c->getParent()->getQualifiedNameAsString();
    o["f"] = Fn(c);
    if (c->isCopyOrMoveConstructor()) {
      o["cp"] = c->isMoveConstructor() ? "move" : "copy";
      if (c->isImplicit() || c->isDefaulted()) o["dflt"] = true;
    }
    if (c->isDefaultConstructor()) o["dc"] = true;
    if (c->isImplicit() || c->isDefaulted()) o["dflt"] = true;
    if (x->isListInitialization()) o["li"] = true;
    if (x->isElidable()) o["elide"] = true;
    json::Array a;
    for (auto* i : x->arguments()) a.push_back(E(i));
    o["a"] = std::move(a);
    return o;
  }

  json::Value Call(const CallExpr* x) {
    auto o = N("call", x);
    const FunctionDecl* f = x->getDirectCallee();
    json::Array a;
    if (auto* u = dyn_cast<UserDefinedLiteral>(x)) {
      (void)u;
    }
    if (auto* m = dyn_cast<CXXMemberCallExpr>(x)) {
      o["o"] = E(m->getImplicitObjectArgument());
      if (auto* me = dyn_cast<MemberExpr>(m->getCallee()->IgnoreParens())) {
        if (me->isArrow()) o["arrow"] = true;
        if (me->hasQualifier()) o["nonvirt"] = true;
      }
      for (auto* i : m->arguments()) a.push_back(E(i));
    } else if (auto* op = dyn_cast<CXXOperatorCallExpr>(x)) {
      o["op"] = getOperatorSpelling(op->getOperator());
      unsigned st = 0;
      if (f && isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic()) {
        o["o"] = E(op->getArg(0));
        st = 1;
      }
      for (unsigned i = st; i < op->getNumArgs(); i++) a.push_back(E(op->getArg(i)));
    } else {
      for (auto* i : x->arguments()) a.push_back(E(i));
    }
    o["a"] = std::move(a);
    if (f) o["f"] = Fn(f);
    else o["fe"] = E(x->getCallee());
    return o;
  }

  // ---------------------------------------------------------------- stmts
  json::Value Var(const VarDecl* v) {
    json::Object o;
    o["id"] = v->isStaticLocal() ? "static:" + VarId(v)
              : v->hasGlobalStorage() ? v->getQualifiedNameAsString() : VarId(v);
    o["n"] = v->getNameAsString();
    o["t"] = Ty(v->getType());
    o["tt"] = TargetTy(v->getType());
    o["l"] = Line(v->getLocation());
    if (v->isStaticLocal()) o["static"] = true;
    if (v->getType()->isReferenceType()) {
      o["ref"] = true;
      if (v->getType()->getPointeeType().isConstQualified()) o["cref"] = true;
    }
    if (v->getInit()) o["i"] = E(v->getInit());
    if (auto* d = dyn_cast<DecompositionDecl>(v)) {
      json::Array b;
      for (auto* x : d->bindings()) {
        json::Object bo;
        bo["id"] = VarId(x);
        bo["n"] = x->getNameAsString();
        b.push_back(std::move(bo));
      }
      o["binds"] = std::move(b);
    }
    return o;
  }

  json::Value S(const Stmt* s) {
    if (!s) return nullptr;
    if (auto* x = dyn_cast<CompoundStmt>(s)) {
      auto o = N("block", s);
      json::Array a;
      for (auto* c : x->body()) a.push_back(S(c));
      o["b"] = std::move(a);
      return o;
    }
    if (auto* x = dyn_cast<IfStmt>(s)) {
      auto o = N("if", s);
      if (x->getInit()) o["init"] = S(x->getInit());
      if (x->getConditionVariable()) o["cv"] = Var(x->getConditionVariable());
      o["c"] = E(x->getCond());
      o["a"] = S(x->getThen());
      if (x->getElse()) o["b"] = S(x->getElse());
      return o;
    }
    if (auto* x = dyn_cast<WhileStmt>(s)) {
      auto o = N("while", s);
      if (x->getConditionVariable()) o["cv"] = Var(x->getConditionVariable());
      o["c"] = E(x->getCond());
      o["b"] = S(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<DoStmt>(s)) {
      auto o = N("do", s);
      o["c"] = E(x->getCond());
      o["b"] = S(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<ForStmt>(s)) {
      auto o = N("for", s);
      if (x->getInit()) o["init"] = S(x->getInit());
      if (x->getConditionVariable()) o["cv"] = Var(x->getConditionVariable());
      if (x->getCond()) o["c"] = E(x->getCond());
      if (x->getInc()) o["inc"] = E(x->getInc());
      o["b"] = S(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
      auto o = N("range", s);
      if (x->getInit()) o["init"] = S(x->getInit());
      auto* v = x->getLoopVariable();
      json::Object vo;
      vo["id"] = VarId(v);
      vo["n"] = v->getNameAsString();
      vo["t"] = Ty(v->getType());
      vo["tt"] = TargetTy(v->getType());
      if (v->getType()->isReferenceType()) {
        vo["ref"] = true;
        if (v->getType()->getPointeeType().isConstQualified()) vo["cref"] = true;
      }
      if (auto* d = dyn_cast<DecompositionDecl>(v)) {
        json::Array b;
        for (auto* y : d->bindings()) {
          json::Object bo;
          bo["id"] = VarId(y);
          bo["n"] = y->getNameAsString();
          b.push_back(std::move(bo));
        }
        vo["binds"] = std::move(b);
      }
      o["v"] = std::move(vo);
      o["r"] = E(x->getRangeInit());
      o["b"] = S(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<SwitchStmt>(s)) {
      auto o = N("switch", s);
      if (x->getInit()) o["init"] = S(x->getInit());
      if (x->getConditionVariable()) o["cv"] = Var(x->getConditionVariable());
      o["c"] = E(x->getCond());
      o["b"] = S(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<CaseStmt>(s)) {
      auto o = N("case", s);
      Expr::EvalResult r;
      if (x->getLHS() && !x->getLHS()->isValueDependent() && x->getLHS()->EvaluateAsInt(r, ctx))
        o["v"] = Big(r.Val.getInt());
      if (x->getRHS() && x->getRHS()->EvaluateAsInt(r, ctx))
        o["v2"] = Big(r.Val.getInt());
      o["s"] = S(x->getSubStmt());
      return o;
    }
    if (auto* x = dyn_cast<DefaultStmt>(s)) {
      auto o = N("default", s);
      o["s"] = S(x->getSubStmt());
      return o;
    }
    if (isa<BreakStmt>(s)) return N("break", s);
    if (isa<ContinueStmt>(s)) return N("continue", s);
    if (auto* x = dyn_cast<ReturnStmt>(s)) {
      auto o = N("ret", s);
      if (x->getRetValue()) o["e"] = E(x->getRetValue());
      return o;
    }
    if (auto* x = dyn_cast<DeclStmt>(s)) {
      auto o = N("decl", s);
      json::Array a;
      for (auto* d : x->decls())
        if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(Var(v));
      o["v"] = std::move(a);
      return o;
    }
    if (auto* x = dyn_cast<CXXTryStmt>(s)) {
      auto o = N("try", s);
      o["b"] = S(x->getTryBlock());
      json::Array h;
      for (unsigned i = 0; i < x->getNumHandlers(); i++) {
        json::Object ho;
        auto* c = x->getHandler(i);
        if (c->getExceptionDecl()) ho["v"] = Var(c->getExceptionDecl());
        ho["b"] = S(c->getHandlerBlock());
        h.push_back(std::move(ho));
      }
      o["h"] = std::move(h);
      return o;
    }
    if (isa<NullStmt>(s)) return N("nop", s);
    if (auto* x = dyn_cast<LabelStmt>(s)) {
      auto o = N("label", s);
      o["n"] = x->getName();
      o["s"] = S(x->getSubStmt());
      return o;
    }
    if (auto* x = dyn_cast<GotoStmt>(s)) {
      auto o = N("goto", s);
      o["n"] = x->getLabel()->getName().str();
      return o;
    }
    if (auto* x = dyn_cast<AttributedStmt>(s)) return S(x->getSubStmt());
    if (auto* x = dyn_cast<Expr>(s)) {
      auto o = N("expr", s);
      o["e"] = E(x);
      return o;
    }
    auto o = N("unk", s);
    o["cls"] = s->getStmtClassName();
    return o;
  }

  // ---------------------------------------------------------------- decls
  bool VisitFunctionDecl(FunctionDecl* f) {
    if (!f->isThisDeclarationADefinition() || f->isDependentContext()) return true;
    if (!InRoots(f->getLocation()) && !InRoots(f->getBody() ? f->getBody()->getBeginLoc() : SourceLocation()))
      return true;
    if (f->isDeleted()) return true;
    std::string k = Key(f);
    if (functions.find(k) != functions.end()) return true;
    json::Object o;
    o["q"] = f->getQualifiedNameAsString();
    o["f"] = Fn(f);
    o["loc"] = Loc(f->getLocation());
    o["end"] = Line(f->getEndLoc());
    o["file"] = PhysFile(f->getLocation());
    json::Array ps;
    for (auto* p : f->parameters()) {
      json::Object po;
      po["id"] = VarId(p);
      po["n"] = p->getNameAsString();
      po["t"] = Ty(p->getType());
      po["tt"] = TargetTy(p->getType());
      po["pk"] = std::string(1, ParamKind(p->getType()));
      ps.push_back(std::move(po));
    }
    o["params"] = std::move(ps);
    o["rt"] = Ty(f->getReturnType());
    if (f->getReturnType()->isReferenceType()) o["rref"] = true;
    if (f->isDefaulted()) o["dflt"] = true;
    if (f->isStatic() || f->isInAnonymousNamespace()) o["internal"] = true;
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      json::Array ov;
      for (auto* b : m->overridden_methods()) ov.push_back(Key(b));
      o["over"] = std::move(ov);
      o["access"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_private ? "private" : "protected";
    }
    if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
      json::Array in;
      for (auto* i : c->inits()) {
        json::Object io;
        if (i->isAnyMemberInitializer()) io["field"] = i->getAnyMember()->getNameAsString();
        else if (i->isDelegatingInitializer()) io["deleg"] = true;
        else if (i->isBaseInitializer()) io["base"] = Ty(QualType(i->getBaseClass(), 0));
        io["e"] = E(i->getInit());
        if (i->isAnyMemberInitializer() && i->getAnyMember()->getType()->isReferenceType()) io["ref"] = true;
        in.push_back(std::move(io));
      }
      o["inits"] = std::move(in);
    }
    if (f->getBody()) o["body"] = S(f->getBody());
    functions[k] = std::move(o);
    return true;
  }

  bool VisitLambdaExpr(LambdaExpr* e) {
    if (e->getCallOperator() && !e->getCallOperator()->isDependentContext())
      VisitFunctionDecl(e->getCallOperator());
    if (auto* ft = e->getCallOperator()->getDescribedFunctionTemplate())
      for (auto* sp : ft->specializations()) VisitFunctionDecl(sp);
    return true;
  }

  bool VisitCXXRecordDecl(CXXRecordDecl* r) {
    if (!r->isThisDeclarationADefinition() || r->isDependentContext()) return true;
    if (!InRoots(r->getLocation())) return true;
    std::string k = Ty(ctx.getRecordType(r));
    json::Object o;
    o["q"] = r->getQualifiedNameAsString();
    o["loc"] = Loc(r->getLocation());
    json::Array bases;
    for (auto& b : r->bases()) bases.push_back(Ty(b.getType()));
    o["bases"] = std::move(bases);
    json::Array fs;
    for (auto* f : r->fields()) {
      json::Object fo;
      fo["n"] = f->getNameAsString();
      fo["t"] = Ty(f->getType());
      if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["i"] = E(f->getInClassInitializer());
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    json::Array ms;
    for (auto* m : r->methods()) {
      json::Object mo;
      mo["m"] = Key(m);
      mo["n"] = m->getNameAsString();
      if (m->isVirtual()) mo["virt"] = true;
      if (m->isPureVirtual()) mo["pure"] = true;
      json::Array ov;
      for (auto* b : m->overridden_methods()) ov.push_back(Key(b));
      mo["over"] = std::move(ov);
      ms.push_back(std::move(mo));
    }
    o["methods"] = std::move(ms);
    o["abstract"] = r->isAbstract();
    o["union"] = r->isUnion();
    records[k] = std::move(o);
    return true;
  }

  bool VisitVarDecl(VarDecl* v) {
    if (isa<ParmVarDecl>(v) || v->isLocalVarDecl()) return true;
    if (v->getType()->isDependentType()) return true;
    if (v->getDeclContext()->isDependentContext()) return true;
    if (!InRoots(v->getLocation()) || !v->hasInit()) return true;
    globals[v->getQualifiedNameAsString()] = Var(v);
    if (auto* o = globals[v->getQualifiedNameAsString()].getAsObject()) {
      (*o)["loc"] = Loc(v->getLocation());
    }
    return true;
  }

  ASTContext& ctx;
  SourceManager& sm;
  ASTNameGenerator names;
  PrintingPolicy pp;
  std::map<const FunctionDecl*, std::string> keys;
  json::Object functions, records, globals;
};

class Consumer : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext& c) override {
    Exporter x(c);
    x.TraverseDecl(c.getTranslationUnitDecl());
    json::Object out;
    out["functions"] = std::move(x.functions);
    out["records"] = std::move(x.records);
    out["globals"] = std::move(x.globals);
    out["errors"] = (int64_t)c.getDiagnostics().getNumErrors();
    std::error_code ec;
    llvm::raw_fd_ostream os(gOut, ec);
    os << json::Value(std::move(out));
  }
};

class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override {
    return std::make_unique<Consumer>();
  }
};

}  // namespace

int main(int argc, const char** argv) {
  if (argc < 5) {
    llvm::errs() << "usage: astfacts OUT ROOT[:ROOT] SOURCE -- args\n";
    return 2;
  }
  gOut = argv[1];
  llvm::SmallVector<llvm::StringRef, 4> parts;
  llvm::StringRef(argv[2]).split(parts, ':');
  for (auto p : parts) gRoots.push_back(p.str());
  std::string src = argv[3];
  std::vector<std::string> args;
  for (int i = 5; i < argc; i++) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", args);
  tooling::ClangTool tool(db, {src});
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
