// Fact extractor: parses one translation unit with clang and dumps, as JSON, the resolved
// typed syntax trees of every function whose body lies under the given root, together with
// the class records.  Template instantiations are dumped as separate functions.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/Expr.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Basic/SourceManager.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <fstream>
#include <map>
#include <set>
#include <string>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static llvm::json::Value i64(const llvm::APSInt& v) {
  if (v.isRepresentableByInt64()) return v.getExtValue();
  return static_cast<double>(v.getLimitedValue());
}
static std::vector<std::string> g_roots;
static std::string g_out;

namespace {

class Dumper {
 public:
  explicit Dumper(ASTContext& ctx) : C(ctx), SM(ctx.getSourceManager()), PP(ctx.getPrintingPolicy()) {
    PP.FullyQualifiedName = true;
    PP.SuppressScope = false;
    PP.PrintCanonicalTypes = true;
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.AnonymousTagLocations = true;
  }

  ASTContext& C;
  SourceManager& SM;
  PrintingPolicy PP;
  std::map<const Decl*, int> ids;
  int next_id = 1;
  std::map<std::string, int> types;
  Array type_list;
  std::set<std::string> seen_fn, seen_rec;
  Array fns, recs, enums;
  std::set<const Decl*> visited;

  int id(const Decl* d) {
    d = d->getCanonicalDecl();
    auto it = ids.find(d);
    if (it != ids.end()) return it->second;
    return ids[d] = next_id++;
  }
  int type(QualType t) {
    if (t.isNull()) return -1;
    QualType c = t.getCanonicalType();
    std::string s = c.getAsString(PP);
    auto it = types.find(s);
    if (it != types.end()) return it->second;
    int n = static_cast<int>(types.size());
    types[s] = n;
    Object o;
    o["s"] = s;
    QualType p = c.getNonReferenceType();
    o["ref"] = c->isLValueReferenceType() ? 1 : c->isRValueReferenceType() ? 2 : 0;
    o["cst"] = p.isConstQualified();
    std::string k = "other";
    if (p->isBooleanType()) k = "bool";
    else if (p->isEnumeralType()) k = "enum";
    else if (p->isIntegerType()) k = "int";
    else if (p->isRealFloatingType()) k = "float";
    else if (p->isPointerType()) k = "ptr";
    else if (p->isRecordType()) k = "rec";
    else if (p->isVoidType()) k = "void";
    else if (p->isArrayType()) k = "arr";
    o["k"] = k;
    if (k == "int" || k == "float" || k == "bool") o["bits"] = static_cast<int64_t>(C.getTypeSize(p));
    if (k == "int") o["sgn"] = p->isSignedIntegerType();
    if (k == "ptr") {
      QualType pt = p->getPointeeType();
      o["pc"] = pt.isConstQualified();
      o["pt"] = pt.getUnqualifiedType().getAsString(PP);
    }
    if (auto* r = p->getAsCXXRecordDecl()) {
      o["rec"] = recKey(r);
      std::string q = r->getQualifiedNameAsString();
      o["rq"] = q;
      if (r->hasDefinition()) o["tdtor"] = r->hasTrivialDestructor();
    }
    // index must be reserved before recursion; no recursion above into type()
    type_list.push_back(std::move(o));
    return n;
  }
  std::string fileOf(SourceLocation l) {
    l = SM.getExpansionLoc(l);
    if (l.isInvalid()) return "";
    FileID f = SM.getFileID(l);
    auto e = SM.getFileEntryRefForID(f);
    if (!e) return "";
    std::string p = e->getFileEntry().tryGetRealPathName().str();
    return p;
  }
  bool inRoots(SourceLocation l) {
    std::string f = fileOf(l);
    for (auto& r : g_roots)
      if (f.size() > r.size() && f.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  int line(SourceLocation l) { return static_cast<int>(SM.getExpansionLineNumber(l)); }
  int col(SourceLocation l) { return static_cast<int>(SM.getExpansionColumnNumber(l)); }

  std::string recKey(const CXXRecordDecl* r) {
    if (r->isLambda()) return "lambda@" + fileOf(r->getBeginLoc()) + ":" + std::to_string(line(r->getBeginLoc())) + ":" + std::to_string(col(r->getBeginLoc())) + "#" + lambdaCtx(r);
    return C.getRecordType(r).getCanonicalType().getUnqualifiedType().getAsString(PP);
  }
  std::string lambdaCtx(const CXXRecordDecl* r) {
    const DeclContext* dc = r->getDeclContext();
    while (dc && !isa<FunctionDecl>(dc)) dc = dc->getParent();
    if (auto* f = dyn_cast_or_null<FunctionDecl>(dc)) return fnKey(f);
    return "";
  }
  std::string fnKey(const FunctionDecl* f) {
    f = f->getCanonicalDecl();
    std::string s;
    llvm::raw_string_ostream os(s);
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      os << recKey(m->getParent()) << "::";
      if (isa<CXXConstructorDecl>(f)) os << "<ctor>";
      else if (isa<CXXDestructorDecl>(f)) os << "<dtor>";
      else os << f->getNameAsString();
      if (auto* ta = f->getTemplateSpecializationArgs()) {
        os << "<";
        bool first = true;
        for (auto& a : ta->asArray()) { if (!first) os << ","; first = false; a.print(PP, os, true); }
        os << ">";
      }
    } else {
      f->getNameForDiagnostic(os, PP, true);
    }
    os << "(";
    for (unsigned i = 0; i < f->getNumParams(); ++i) {
      if (i) os << ",";
      QualType pt = f->getParamDecl(i)->getType().getCanonicalType();
      if (auto* r = pt.getNonReferenceType()->getAsCXXRecordDecl(); r && r->isLambda()) os << recKey(r);
      else os << pt.getAsString(PP);
    }
    os << ")";
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) if (m->isConst()) os << "const";
    return os.str();
  }

  // ------------------------------------------------------------------ exprs
  void cval(const Expr* e, Object& o) {
    if (e->isValueDependent() || e->isTypeDependent()) return;
    QualType t = e->getType();
    if (t.isNull()) return;
    if (t->isIntegralOrEnumerationType()) {
      Expr::EvalResult r;
      if (e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects)) o["cv"] = i64(r.Val.getInt());
    } else if (t->isRealFloatingType()) {
      llvm::APFloat v(0.0);
      if (e->EvaluateAsFloat(v, C, Expr::SE_NoSideEffects)) {
        bool li; v.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li);
        o["cv"] = v.convertToDouble();
        if (v.isInfinity()) { o["cv"] = v.isNegative() ? "-inf" : "inf"; }
      }
    }
  }
  Object base(const char* k, const Expr* e) {
    Object o;
    o["k"] = k;
    o["t"] = type(e->getType());
    o["l"] = line(e->getBeginLoc());
    o["c"] = col(e->getBeginLoc());
    if (e->isLValue() || e->isXValue()) o["lv"] = 1;
    return o;
  }
  Object callee(const FunctionDecl* f) {
    Object o;
    o["key"] = fnKey(f);
    o["n"] = f->getNameAsString();
    o["q"] = f->getQualifiedNameAsString();
    Array ps;
    for (auto* p : f->parameters()) ps.push_back(type(p->getType()));
    o["p"] = std::move(ps);
    o["rt"] = type(f->getReturnType());
    if (f->isVariadic()) o["va"] = 1;
    const FunctionDecl* def = nullptr;
    if (f->isDefined(def) || f->getTemplateInstantiationPattern()) {}
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      o["m"] = 1;
      o["cls"] = recKey(m->getParent());
      o["cq"] = m->getParent()->getQualifiedNameAsString();
      if (m->isConst()) o["cst"] = 1;
      if (m->isStatic()) o["st"] = 1;
      if (m->isVirtual()) o["v"] = 1;
      if (isa<CXXConstructorDecl>(f)) {
        o["ctor"] = 1;
        auto* cd = cast<CXXConstructorDecl>(f);
        if (cd->isCopyConstructor()) o["cc"] = 1;
        if (cd->isMoveConstructor()) o["mc"] = 1;
      }
      if (m->isCopyAssignmentOperator()) o["ca"] = 1;
      if (m->isMoveAssignmentOperator()) o["ma"] = 1;
      if (f->isDefaulted() || f->isImplicit()) o["dflt"] = 1;
    }
    if (f->isOverloadedOperator()) o["op"] = getOperatorSpelling(f->getOverloadedOperator());
    if (isa<CXXConversionDecl>(f)) o["conv"] = 1;
    return o;
  }
  void enqueue(const FunctionDecl* f) {
    if (!f) return;
    const FunctionDecl* def = nullptr;
    if (f->isDefined(def) && def && inRoots(def->getLocation())) dumpFn(def);
  }

  Value ex(const Expr* e) {
    if (!e) return nullptr;
    // transparent wrappers
    while (true) {
      if (auto* x = dyn_cast<ParenExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<FullExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = x->getReplacement();
      else if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) e = x->getExpr();
      else if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) e = x->getExpr();
      else if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<ImplicitCastExpr>(e)) {
        switch (x->getCastKind()) {
          case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay: case CK_ArrayToPointerDecay:
          case CK_DerivedToBase: case CK_UncheckedDerivedToBase: case CK_ConstructorConversion:
          case CK_UserDefinedConversion: case CK_BuiltinFnToFnPtr: case CK_BaseToDerived:
            e = x->getSubExpr(); break;
          default: goto done;
        }
      } else break;
    }
  done:
    if (auto* x = dyn_cast<IntegerLiteral>(e)) {
      Object o = base("int", e); o["v"] = i64(llvm::APSInt(x->getValue(), x->getType()->isUnsignedIntegerType())); return o;
    }
    if (auto* x = dyn_cast<FloatingLiteral>(e)) { Object o = base("flt", e); o["v"] = x->getValueAsApproximateDouble(); return o; }
    if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) { Object o = base("int", e); o["v"] = x->getValue() ? 1 : 0; return o; }
    if (auto* x = dyn_cast<CharacterLiteral>(e)) { Object o = base("int", e); o["v"] = static_cast<int64_t>(x->getValue()); return o; }
    if (auto* x = dyn_cast<StringLiteral>(e)) {
      Object o = base("str", e);
      std::string s = x->isOrdinary() || x->isUTF8() ? x->getString().str() : "";
      if (!llvm::json::isUTF8(s)) s = llvm::json::fixUTF8(s);
      o["v"] = s; return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) return base("null", e);
    if (isa<CXXThisExpr>(e)) return base("this", e);
    if (auto* x = dyn_cast<DeclRefExpr>(e)) {
      Object o = base("ref", e);
      const ValueDecl* d = x->getDecl();
      o["n"] = d->getNameAsString();
      if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
        o["dk"] = "enum"; o["q"] = ec->getQualifiedNameAsString(); o["cv"] = i64(ec->getInitVal());
        return o;
      }
      if (auto* f = dyn_cast<FunctionDecl>(d)) { o["dk"] = "fn"; o["fn"] = callee(f); enqueue(f); return o; }
      if (auto* v = dyn_cast<VarDecl>(d)) {
        if (isa<ParmVarDecl>(v)) o["dk"] = "parm";
        else if (v->isLocalVarDecl() && !v->isStaticLocal()) o["dk"] = "local";
        else { o["dk"] = "glob"; o["q"] = v->getQualifiedNameAsString(); }
        o["id"] = id(v);
        if (o["dk"].getAsString() == StringRef("glob") || v->isConstexpr()) cval(e, o);
        return o;
      }
      o["dk"] = "other"; o["id"] = id(d);
      return o;
    }
    if (auto* x = dyn_cast<MemberExpr>(e)) {
      const ValueDecl* d = x->getMemberDecl();
      if (auto* v = dyn_cast<VarDecl>(d)) {
        Object o = base("ref", e); o["n"] = v->getNameAsString(); o["dk"] = "glob"; o["q"] = v->getQualifiedNameAsString(); o["id"] = id(v);
        cval(e, o); return o;
      }
      Object o = base("mem", e);
      o["n"] = d->getNameAsString();
      o["b"] = ex(x->getBase());
      if (x->isArrow()) o["ar"] = 1;
      if (auto* f = dyn_cast<FieldDecl>(d)) { if (auto* r = dyn_cast<CXXRecordDecl>(f->getParent())) o["o"] = recKey(r); }
      if (auto* f = dyn_cast<FunctionDecl>(d)) { o["fn"] = callee(f); enqueue(f); }
      return o;
    }
    if (auto* x = dyn_cast<CompoundAssignOperator>(e)) {
      Object o = base("asg", e); o["op"] = x->getOpcodeStr().str(); o["a"] = ex(x->getLHS()); o["b"] = ex(x->getRHS());
      o["ct"] = type(x->getComputationResultType()); return o;
    }
    if (auto* x = dyn_cast<BinaryOperator>(e)) {
      Object o = base(x->isAssignmentOp() ? "asg" : "bin", e);
      o["op"] = x->getOpcodeStr().str(); o["a"] = ex(x->getLHS()); o["b"] = ex(x->getRHS());
      if (!x->isAssignmentOp()) cval(e, o);
      return o;
    }
    if (auto* x = dyn_cast<UnaryOperator>(e)) {
      Object o = base("un", e);
      o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str(); o["a"] = ex(x->getSubExpr());
      if (x->isPostfix()) o["pf"] = 1;
      if (!x->isIncrementDecrementOp()) cval(e, o);
      return o;
    }
    if (auto* x = dyn_cast<AbstractConditionalOperator>(e)) {
      Object o = base("cond", e); o["i"] = ex(x->getCond()); o["a"] = ex(x->getTrueExpr()); o["b"] = ex(x->getFalseExpr()); cval(e, o); return o;
    }
    if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) { Object o = base("sub", e); o["a"] = ex(x->getBase()); o["b"] = ex(x->getIdx()); return o; }
    if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
      Object o = base("new_", e);
      o["k"] = "ctor"; o["fn"] = callee(x->getConstructor());
      Array as; for (auto* a : x->arguments()) as.push_back(ex(a));
      o["as"] = std::move(as);
      if (x->isElidable()) o["el"] = 1;
      if (x->isListInitialization()) o["li"] = 1;
      enqueue(x->getConstructor());
      return o;
    }
    if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
      Object o = base("opc", e);
      if (auto* f = x->getDirectCallee()) { o["fn"] = callee(f); enqueue(f); }
      o["op"] = getOperatorSpelling(x->getOperator());
      Array as; for (auto* a : x->arguments()) as.push_back(ex(a));
      o["as"] = std::move(as);
      return o;
    }
    if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
      Object o = base("mcl", e);
      if (auto* m = x->getMethodDecl()) {
        o["fn"] = callee(m);
        enqueue(m);
        const Expr* ie = x->getImplicitObjectArgument();
        const Expr* ic = ie ? ie->IgnoreParenImpCasts() : nullptr;
        auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens());
        bool qual = me && me->hasQualifier();
        if (m->isVirtual() && !qual) {
          bool exact = false;
          if (ie) if (auto* dm = m->getDevirtualizedMethod(ie, false)) { exact = true; o["fn"] = callee(dm); enqueue(dm); }
          if (!exact) o["vd"] = 1;
        }
        (void)ic;
        if (me && me->isArrow()) o["ar"] = 1;
      }
      o["ob"] = ex(x->getImplicitObjectArgument());
      if (!x->getMethodDecl()) o["fe"] = ex(x->getCallee());
      Array as; for (auto* a : x->arguments()) as.push_back(ex(a));
      o["as"] = std::move(as);
      cval(e, o);
      return o;
    }
    if (auto* x = dyn_cast<CallExpr>(e)) {
      Object o = base("cal", e);
      if (auto* f = x->getDirectCallee()) { o["fn"] = callee(f); enqueue(f); }
      else o["fe"] = ex(x->getCallee());
      Array as; for (auto* a : x->arguments()) as.push_back(ex(a));
      o["as"] = std::move(as);
      cval(e, o);
      return o;
    }
    if (auto* x = dyn_cast<LambdaExpr>(e)) {
      Object o = base("lam", e);
      auto* r = x->getLambdaClass();
      o["key"] = recKey(r);
      o["fn"] = callee(x->getCallOperator());
      if (!x->getCallOperator()->getDescribedFunctionTemplate()) dumpFn(x->getCallOperator());
      Array cs;
      auto init = x->capture_init_begin();
      for (auto& c : x->captures()) {
        Object k;
        if (c.capturesThis()) { k["this"] = 1; if (c.getCaptureKind() == LCK_StarThis) k["star"] = 1; }
        else if (c.capturesVariable()) {
          k["id"] = id(c.getCapturedVar()); k["n"] = c.getCapturedVar()->getNameAsString();
          k["byref"] = c.getCaptureKind() == LCK_ByRef;
          k["parm"] = isa<ParmVarDecl>(c.getCapturedVar());
          k["i"] = ex(*init);
        }
        ++init;
        cs.push_back(std::move(k));
      }
      o["cs"] = std::move(cs);
      return o;
    }
    if (auto* x = dyn_cast<CastExpr>(e)) {
      Object o = base("cast", e);
      o["ck"] = x->getCastKindName(); o["a"] = ex(x->getSubExpr());
      if (isa<ExplicitCastExpr>(x)) o["exp"] = 1;
      cval(e, o);
      return o;
    }
    if (auto* x = dyn_cast<InitListExpr>(e)) {
      if (x->isSemanticForm() == false && x->getSemanticForm()) x = x->getSemanticForm();
      Object o = base("ini", e); Array as; for (auto* a : x->inits()) as.push_back(ex(a)); o["as"] = std::move(as); return o;
    }
    if (auto* x = dyn_cast<CXXNewExpr>(e)) {
      Object o = base("new", e); o["at"] = type(x->getAllocatedType()); o["i"] = x->getInitializer() ? ex(x->getInitializer()) : Value(nullptr);
      if (auto* ce = x->getConstructExpr()) o["i"] = ex(ce);
      return o;
    }
    if (auto* x = dyn_cast<CXXDeleteExpr>(e)) { Object o = base("del", e); o["a"] = ex(x->getArgument()); return o; }
    if (auto* x = dyn_cast<CXXThrowExpr>(e)) { Object o = base("throw", e); o["a"] = x->getSubExpr() ? ex(x->getSubExpr()) : Value(nullptr); return o; }
    if (isa<CXXScalarValueInitExpr>(e) || isa<ImplicitValueInitExpr>(e)) { Object o = base("zero", e); cval(e, o); return o; }
    if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) { (void)x; Object o = base("sizeof", e); cval(e, o); return o; }
    if (isa<TypeTraitExpr>(e)) { Object o = base("trait", e); cval(e, o); return o; }
    Object o = base("unk", e);
    o["sc"] = e->getStmtClassName();
    Array as;
    for (auto* ch : e->children()) if (ch) if (auto* ce = dyn_cast<Expr>(ch)) as.push_back(ex(ce));
    o["as"] = std::move(as);
    cval(e, o);
    return o;
  }

  // ------------------------------------------------------------------ stmts
  Object var(const VarDecl* v) {
    Object o;
    o["id"] = id(v); o["n"] = v->getNameAsString(); o["t"] = type(v->getType()); o["l"] = line(v->getLocation());
    if (v->isStaticLocal()) o["static"] = 1;
    if (v->isConstexpr()) o["cx"] = 1;
    if (v->getInit()) { o["i"] = ex(v->getInit()); o["is"] = static_cast<int>(v->getInitStyle()); }
    return o;
  }
  Value st(const Stmt* s) {
    if (!s) return nullptr;
    if (auto* a = dyn_cast<AttributedStmt>(s)) return st(a->getSubStmt());
    if (auto* e = dyn_cast<Expr>(s)) { Object o; o["k"] = "expr"; o["l"] = line(e->getBeginLoc()); o["e"] = ex(e); return o; }
    Object o;
    o["l"] = line(s->getBeginLoc());
    if (auto* x = dyn_cast<CompoundStmt>(s)) {
      o["k"] = "blk"; Array b; for (auto* c : x->body()) b.push_back(st(c)); o["b"] = std::move(b); o["e"] = line(s->getEndLoc()); return o;
    }
    if (auto* x = dyn_cast<DeclStmt>(s)) {
      o["k"] = "decl"; Array vs;
      for (auto* d : x->decls()) {
        if (auto* v = dyn_cast<VarDecl>(d)) vs.push_back(var(v));
      }
      o["vs"] = std::move(vs); return o;
    }
    if (auto* x = dyn_cast<IfStmt>(s)) {
      o["k"] = "if";
      if (x->getInit()) o["init"] = st(x->getInit());
      if (x->getConditionVariable()) o["var"] = var(x->getConditionVariable());
      o["i"] = ex(x->getCond()); o["a"] = st(x->getThen()); o["b"] = st(x->getElse()); return o;
    }
    if (auto* x = dyn_cast<ForStmt>(s)) {
      o["k"] = "for"; o["init"] = st(x->getInit()); o["i"] = x->getCond() ? ex(x->getCond()) : Value(nullptr);
      o["inc"] = x->getInc() ? ex(x->getInc()) : Value(nullptr); o["b"] = st(x->getBody()); return o;
    }
    if (auto* x = dyn_cast<WhileStmt>(s)) {
      o["k"] = "while"; if (x->getConditionVariable()) o["var"] = var(x->getConditionVariable());
      o["i"] = ex(x->getCond()); o["b"] = st(x->getBody()); return o;
    }
    if (auto* x = dyn_cast<DoStmt>(s)) { o["k"] = "do"; o["i"] = ex(x->getCond()); o["b"] = st(x->getBody()); return o; }
    if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
      o["k"] = "rfor"; o["var"] = var(x->getLoopVariable()); o["r"] = ex(x->getRangeInit()); o["b"] = st(x->getBody()); 
      return o;
    }
    if (auto* x = dyn_cast<ReturnStmt>(s)) { o["k"] = "ret"; o["e"] = x->getRetValue() ? ex(x->getRetValue()) : Value(nullptr); return o; }
    if (isa<BreakStmt>(s)) { o["k"] = "brk"; return o; }
    if (isa<ContinueStmt>(s)) { o["k"] = "cont"; return o; }
    if (isa<NullStmt>(s)) { o["k"] = "null"; return o; }
    if (auto* x = dyn_cast<SwitchStmt>(s)) { o["k"] = "switch"; o["i"] = ex(x->getCond()); o["b"] = st(x->getBody()); return o; }
    if (auto* x = dyn_cast<CaseStmt>(s)) { o["k"] = "case"; o["i"] = ex(x->getLHS()); o["b"] = st(x->getSubStmt()); return o; }
    if (auto* x = dyn_cast<DefaultStmt>(s)) { o["k"] = "default"; o["b"] = st(x->getSubStmt()); return o; }
    if (auto* x = dyn_cast<CXXTryStmt>(s)) {
      o["k"] = "try"; o["b"] = st(x->getTryBlock()); Array hs;
      for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
        Object h; auto* c = x->getHandler(i);
        h["l"] = line(c->getBeginLoc());
        if (c->getExceptionDecl()) h["var"] = var(c->getExceptionDecl());
        h["b"] = st(c->getHandlerBlock()); hs.push_back(std::move(h));
      }
      o["hs"] = std::move(hs); return o;
    }
    o["k"] = "unk"; o["sc"] = s->getStmtClassName();
    return o;
  }

  void dumpFn(const FunctionDecl* f) {
    if (!f->doesThisDeclarationHaveABody() && !f->isDefaulted()) return;
    if (f->isDependentContext()) return;
    if (!visited.insert(f).second) return;
    const FunctionDecl* def = nullptr;
    if (!f->isDefined(def)) return;
    f = def;
    if (!f->getBody()) return;
    std::string key = fnKey(f);
    if (!seen_fn.insert(key).second) return;
    Object o = callee(f);
    o["f"] = fileOf(f->getLocation());
    o["l"] = line(f->getLocation());
    o["e"] = line(f->getEndLoc());
    o["acc"] = static_cast<int>(f->getAccess());
    if (f->getTemplateInstantiationPattern()) o["ti"] = 1;
    if (f->isImplicit()) o["impl"] = 1;
    Array ps;
    for (auto* p : f->parameters()) { Object q; q["id"] = id(p); q["n"] = p->getNameAsString(); q["t"] = type(p->getType()); ps.push_back(std::move(q)); }
    o["ps"] = std::move(ps);
    if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
      Array is;
      for (auto* i : c->inits()) {
        Object q;
        if (i->isMemberInitializer()) q["f"] = i->getMember()->getNameAsString();
        else if (i->isBaseInitializer()) q["base"] = type(QualType(i->getBaseClass(), 0));
        else if (i->isDelegatingInitializer()) q["deleg"] = 1;
        if (i->isWritten()) q["w"] = 1;
        q["i"] = ex(i->getInit());
        q["l"] = line(i->getSourceLocation());
        is.push_back(std::move(q));
      }
      o["inits"] = std::move(is);
    }
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      Array ov; for (auto* b : m->overridden_methods()) ov.push_back(fnKey(b)); o["ov"] = std::move(ov);
      if (m->getParent()->isLambda()) o["lam"] = 1;
      if (inRoots(m->getParent()->getLocation())) dumpRec(m->getParent());
    }
    o["b"] = st(f->getBody());
    fns.push_back(std::move(o));
  }

  void dumpRec(const CXXRecordDecl* r) {
    r = r->getDefinition();
    if (!r || r->isDependentContext() || r->isInvalidDecl()) return;
    std::string key = recKey(r);
    if (!seen_rec.insert(key).second) return;
    Object o;
    o["key"] = key; o["n"] = r->getNameAsString(); o["q"] = r->getQualifiedNameAsString();
    o["f"] = fileOf(r->getLocation()); o["l"] = line(r->getLocation());
    if (r->isLambda()) o["lam"] = 1;
    if (isa<ClassTemplateSpecializationDecl>(r)) o["ti"] = 1;
    o["poly"] = r->isPolymorphic(); o["abs"] = r->isAbstract(); o["agg"] = r->isAggregate();
    Array fs;
    for (auto* f : r->fields()) {
      Object q; q["n"] = f->getNameAsString(); q["t"] = type(f->getType()); q["l"] = line(f->getLocation()); q["acc"] = static_cast<int>(f->getAccess());
      if (f->isMutable()) q["mut"] = 1;
      if (f->hasInClassInitializer()) { q["hi"] = 1; if (f->getInClassInitializer()) q["i"] = ex(f->getInClassInitializer()); }
      fs.push_back(std::move(q));
    }
    o["fs"] = std::move(fs);
    Array bs;
    for (auto& b : r->bases()) { if (auto* br = b.getType()->getAsCXXRecordDecl()) { bs.push_back(recKey(br)); if (inRoots(br->getLocation())) dumpRec(br); } }
    o["bs"] = std::move(bs);
    // special members
    Object sm;
    sm["cc_need"] = r->needsImplicitCopyConstructor(); sm["mc_need"] = r->needsImplicitMoveConstructor();
    sm["ca_need"] = r->needsImplicitCopyAssignment(); sm["ma_need"] = r->needsImplicitMoveAssignment();
    sm["simple_cc"] = r->hasSimpleCopyConstructor();
    sm["cc_impldel"] = r->needsImplicitCopyConstructor() && r->defaultedCopyConstructorIsDeleted();
    sm["mc_impldel"] = r->needsImplicitMoveConstructor() && r->defaultedMoveConstructorIsDeleted();
    sm["dflt_ctor_need"] = r->needsImplicitDefaultConstructor();
    o["sm"] = std::move(sm);
    Array ms;
    for (auto* d : r->decls()) {
      const FunctionDecl* f = dyn_cast<FunctionDecl>(d);
      const FunctionTemplateDecl* ft = dyn_cast<FunctionTemplateDecl>(d);
      if (ft) f = ft->getTemplatedDecl();
      if (!f) continue;
      auto* m = dyn_cast<CXXMethodDecl>(f);
      Object q = ft ? Object() : callee(f);
      q["n"] = f->getNameAsString();
      q["l"] = line(f->getLocation());
      if (ft) q["tmpl"] = 1;
      q["acc"] = static_cast<int>(f->getAccess());
      if (f->isDeleted()) q["del"] = 1;
      if (f->isDefaulted()) q["dfl"] = 1;
      if (f->isImplicit()) q["impl"] = 1;
      if (m && !ft) {
        q["pure"] = m->isPureVirtual();
        Array ov; for (auto* b : m->overridden_methods()) ov.push_back(fnKey(b)); q["ov"] = std::move(ov);
      }
      ms.push_back(std::move(q));
    }
    o["ms"] = std::move(ms);
    recs.push_back(std::move(o));
  }

  void walk(const Decl* d) {
    if (!d) return;
    if (auto* f = dyn_cast<FunctionDecl>(d)) { if (inRoots(f->getLocation())) dumpFn(f); return; }
    if (auto* ft = dyn_cast<FunctionTemplateDecl>(d)) {
      if (!inRoots(ft->getLocation())) return;
      for (auto* s : ft->specializations()) dumpFn(s);
      return;
    }
    if (auto* ct = dyn_cast<ClassTemplateDecl>(d)) {
      if (!inRoots(ct->getLocation())) return;
      for (auto* s : ct->specializations()) walkRec(s);
      return;
    }
    if (auto* r = dyn_cast<CXXRecordDecl>(d)) { if (inRoots(r->getLocation())) walkRec(r); return; }
    if (auto* en = dyn_cast<EnumDecl>(d)) {
      if (!inRoots(en->getLocation())) return;
      Object o; o["q"] = en->getQualifiedNameAsString(); Array vs;
      for (auto* c : en->enumerators()) { Object q; q["n"] = c->getNameAsString(); q["v"] = i64(c->getInitVal()); vs.push_back(std::move(q)); }
      o["vs"] = std::move(vs); enums.push_back(std::move(o)); return;
    }
    if (auto* dc = dyn_cast<NamespaceDecl>(d)) { for (auto* c : dc->decls()) walk(c); return; }
    if (auto* ls = dyn_cast<LinkageSpecDecl>(d)) { for (auto* c : ls->decls()) walk(c); return; }
  }
  void walkRec(const CXXRecordDecl* r) {
    r = r->getDefinition();
    if (!r || r->isDependentContext()) return;
    dumpRec(r);
    for (auto* d : r->decls()) walk(d);
  }
  void run() {
    for (auto* d : C.getTranslationUnitDecl()->decls()) walk(d);
    Object top;
    top["types"] = std::move(type_list); top["fns"] = std::move(fns); top["recs"] = std::move(recs); top["enums"] = std::move(enums);
    Array files;
    for (auto it = SM.fileinfo_begin(); it != SM.fileinfo_end(); ++it) {
      std::string p = it->first.getFileEntry().tryGetRealPathName().str();
      for (auto& r : g_roots) if (p.compare(0, r.size(), r) == 0) { files.push_back(p); break; }
    }
    top["files"] = std::move(files);
    std::error_code ec;
    llvm::raw_fd_ostream os(g_out, ec);
    os << Value(std::move(top));
  }
};

class Consumer : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext& ctx) override {
    if (ctx.getDiagnostics().hasErrorOccurred()) return;
    Dumper(ctx).run();
  }
};
class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Consumer>(); }
};
}  // namespace

// usage: facts OUT.json ROOT[,ROOT...] SOURCE -- flags
int main(int argc, char** argv) {
  if (argc < 5) return 2;
  g_out = argv[1];
  std::string roots = argv[2];
  size_t p = 0;
  while (p <= roots.size()) { size_t q = roots.find(',', p); if (q == std::string::npos) q = roots.size(); if (q > p) g_roots.push_back(roots.substr(p, q - p)); p = q + 1; }
  std::vector<std::string> args;
  args.push_back("clang++");
  args.push_back("-fsyntax-only");
  for (int i = 5; i < argc; ++i) args.push_back(argv[i]);
  args.push_back(argv[3]);
  IntrusiveRefCntPtr<FileManager> fm(new FileManager(FileSystemOptions()));
  tooling::ToolInvocation inv(args, std::make_unique<Action>(), fm.get());
  return inv.run() ? 0 : 1;
}
