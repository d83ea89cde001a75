// heuast: prints, as JSON, the typed AST of every function of namespace heu (and vroot) that is
// reachable from the root functions (namespace vroot) of a translation unit.  Templates appear as
// instantiated by clang, constant expressions folded by clang's evaluator, constexpr-if resolved.
// Nothing is rewritten: this is a serialisation of what the compiler compiles.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/DeclOpenMP.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Sema/Sema.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <fstream>
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;
using json::Array;
using json::Object;
using json::Value;

static std::string outFile;

struct Emit {
  ASTContext &C;
  PrintingPolicy PP;
  std::map<const Type *, int> typeIds;
  std::vector<Value> types;
  std::map<const RecordDecl *, int> recIds;
  std::deque<const RecordDecl *> recQueue;
  std::map<const FunctionDecl *, int> fnIds;
  std::deque<const FunctionDecl *> fnQueue;
  std::map<const Decl *, int> varIds;
  std::map<const Stmt *, Value> dummy;

  Emit(ASTContext &c) : C(c), PP(c.getPrintingPolicy()) { PP.SuppressTagKeyword = true; }

  static bool ours(const Decl *D) {
    for (const DeclContext *dc = D->getDeclContext(); dc; dc = dc->getParent()) {
      if (auto *ns = dyn_cast<NamespaceDecl>(dc)) {
        if (ns->getName() == "heu" || ns->getName() == "vroot") return true;
      }
    }
    return false;
  }

  static std::string baseName(const NamedDecl *D) {
    std::string s;
    if (auto *c = dyn_cast<CXXConstructorDecl>(D)) s = "ctor";
    else if (isa<CXXDestructorDecl>(D)) s = "dtor";
    else if (isa<CXXConversionDecl>(D)) s = "operator conv";
    else s = D->getDeclName().getAsString();
    for (const DeclContext *dc = D->getDeclContext(); dc; dc = dc->getParent()) {
      if (auto *ns = dyn_cast<NamespaceDecl>(dc)) {
        if (ns->isInline() || ns->isAnonymousNamespace()) continue;
        s = ns->getName().str() + "::" + s;
      } else if (auto *rd = dyn_cast<RecordDecl>(dc)) {
        std::string n = rd->getName().str();
        if (n.empty()) n = "(anon)";
        s = n + "::" + s;
      } else if (auto *fd = dyn_cast<FunctionDecl>(dc)) {
        s = fd->getDeclName().getAsString() + "::" + s;
      }
    }
    return s;
  }

  Value targs(llvm::ArrayRef<TemplateArgument> as) {
    Array r;
    for (auto &a : as) {
      switch (a.getKind()) {
      case TemplateArgument::Type: r.push_back(Object{{"t", T(a.getAsType())}}); break;
      case TemplateArgument::Integral: {
        llvm::SmallString<32> s;
        a.getAsIntegral().toString(s, 10);
        r.push_back(Object{{"i", std::string(s)}});
        break;
      }
      case TemplateArgument::Declaration:
        r.push_back(Object{{"d", baseName(a.getAsDecl())}, {"df", fnRef(a.getAsDecl())}});
        break;
      case TemplateArgument::NullPtr: r.push_back(Object{{"null", true}}); break;
      case TemplateArgument::Pack: r.push_back(Object{{"pack", targs(a.getPackAsArray())}}); break;
      case TemplateArgument::Template: r.push_back(Object{{"tmpl", true}}); break;
      default: r.push_back(Object{{"other", true}});
      }
    }
    return Value(std::move(r));
  }
  Value fnRef(const ValueDecl *d) {
    if (auto *f = dyn_cast<FunctionDecl>(d)) return fn(f);
    return nullptr;
  }

  int T(QualType q) {
    q = q.getCanonicalType();
    bool cst = q.isConstQualified();
    (void)cst;
    const Type *t = q.getTypePtr();
    auto it = typeIds.find(t);
    if (it != typeIds.end()) return it->second;
    int id = (int)types.size();
    typeIds[t] = id;
    types.push_back(nullptr);
    Object o;
    o["s"] = q.getUnqualifiedType().getAsString(PP);
    if (auto *b = dyn_cast<BuiltinType>(t)) {
      if (b->getKind() == BuiltinType::Bool) o["k"] = "bool";
      else if (b->isInteger()) {
        o["k"] = "int";
        o["w"] = (int64_t)C.getTypeSize(q);
        o["sg"] = b->isSignedInteger();
      } else if (b->isFloatingPoint()) {
        o["k"] = "fp";
        o["w"] = (int64_t)C.getTypeSize(q);
      } else if (b->isVoidType()) o["k"] = "void";
      else if (b->isNullPtrType()) o["k"] = "nullptr";
      else o["k"] = "other";
    } else if (auto *e = dyn_cast<EnumType>(t)) {
      o["k"] = "enum";
      o["name"] = baseName(e->getDecl());
      QualType u = e->getDecl()->getIntegerType();
      o["w"] = (int64_t)C.getTypeSize(q);
      o["sg"] = !u.isNull() && u->isSignedIntegerType();
    } else if (auto *p = dyn_cast<PointerType>(t)) {
      o["k"] = "ptr";
      o["to"] = T(p->getPointeeType());
      o["cst"] = p->getPointeeType().isConstQualified();
    } else if (auto *r = dyn_cast<ReferenceType>(t)) {
      o["k"] = "ref";
      o["to"] = T(r->getPointeeType());
      o["cst"] = r->getPointeeType().isConstQualified();
      o["rv"] = isa<RValueReferenceType>(t);
    } else if (auto *a = dyn_cast<ConstantArrayType>(t)) {
      o["k"] = "arr";
      o["of"] = T(a->getElementType());
      o["n"] = (int64_t)a->getSize().getZExtValue();
    } else if (auto *r = dyn_cast<RecordType>(t)) {
      const RecordDecl *rd = r->getDecl();
      o["k"] = "rec";
      o["name"] = baseName(rd);
      o["lambda"] = isa<CXXRecordDecl>(rd) && cast<CXXRecordDecl>(rd)->isLambda();
      if (auto *sp = dyn_cast<ClassTemplateSpecializationDecl>(rd))
        o["args"] = targs(sp->getTemplateArgs().asArray());
      if (ours(rd)) o["id"] = rec(rd);
    } else if (isa<FunctionProtoType>(t)) {
      o["k"] = "fn";
    } else
      o["k"] = "other";
    types[id] = Value(std::move(o));
    return id;
  }

  int rec(const RecordDecl *rd) {
    rd = cast<RecordDecl>(rd->getCanonicalDecl());
    auto it = recIds.find(rd);
    if (it != recIds.end()) return it->second;
    int id = (int)recIds.size();
    recIds[rd] = id;
    recQueue.push_back(rd);
    return id;
  }

  int fn(const FunctionDecl *f) {
    const FunctionDecl *def = nullptr;
    if (f->isDefined(def)) f = def;
    else f = f->getCanonicalDecl();
    auto it = fnIds.find(f);
    if (it != fnIds.end()) return it->second;
    int id = (int)fnIds.size();
    fnIds[f] = id;
    fnQueue.push_back(f);
    return id;
  }

  int var(const Decl *d) {
    d = d->getCanonicalDecl();
    auto it = varIds.find(d);
    if (it != varIds.end()) return it->second;
    int id = (int)varIds.size();
    varIds[d] = id;
    return id;
  }

  std::string loc(SourceLocation l) {
    l = C.getSourceManager().getExpansionLoc(l);
    PresumedLoc p = C.getSourceManager().getPresumedLoc(l);
    if (p.isInvalid()) return "?";
    std::string f = p.getFilename();
    auto pos = f.rfind("HeuristicFlow/");
    if (pos != std::string::npos) f = f.substr(pos);
    return f + ":" + std::to_string(p.getLine());
  }

  Value callee(const FunctionDecl *f) {
    Object o;
    o["base"] = baseName(f);
    if (ours(f)) o["fn"] = fn(f);
    if (auto *a = f->getTemplateSpecializationArgs()) o["targs"] = targs(a->asArray());
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      o["rec"] = T(C.getRecordType(m->getParent()));
      o["static"] = m->isStatic();
    }
    return Value(std::move(o));
  }

  Value constVal(const APValue &v, QualType t) {
    if (v.isInt()) {
      llvm::SmallString<32> s;
      v.getInt().toString(s, 10);
      return Object{{"k", "int"}, {"v", std::string(s)}, {"t", T(t)}};
    }
    if (v.isFloat()) {
      llvm::SmallString<40> s;
      v.getFloat().bitcastToAPInt().toString(s, 10, false);
      llvm::SmallString<40> d;
      v.getFloat().toString(d);
      return Object{{"k", "float"}, {"bits", std::string(s)}, {"d", std::string(d)}, {"t", T(t)}};
    }
    return nullptr;
  }

  Value fold(const Expr *e) {
    QualType t = e->getType();
    if (t.isNull() || e->isValueDependent() || !e->isPRValue()) return nullptr;
    if (!(t->isIntegralOrEnumerationType() || t->isRealFloatingType())) return nullptr;
    if (isa<InitListExpr>(e) || isa<CXXDefaultInitExpr>(e)) return nullptr;
    Expr::EvalResult r;
    if (!e->EvaluateAsRValue(r, C) || r.HasSideEffects) return nullptr;
    return constVal(r.Val, t);
  }

  Value exprs(const Expr *const *b, const Expr *const *e) {
    Array a;
    for (; b != e; ++b) a.push_back(E(*b));
    return Value(std::move(a));
  }

  Value E(const Expr *e, bool whole = true) {
    if (!e) return nullptr;
    if (auto *p = dyn_cast<ParenExpr>(e)) return E(p->getSubExpr());
    if (auto *p = dyn_cast<FullExpr>(e)) return E(p->getSubExpr());
    if (auto *p = dyn_cast<MaterializeTemporaryExpr>(e)) return E(p->getSubExpr());
    if (auto *p = dyn_cast<CXXBindTemporaryExpr>(e)) return E(p->getSubExpr());
    if (auto *p = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) {
      Value f0 = fold(e);
      if (f0.kind() != Value::Null) return f0;
      return E(p->getReplacement());
    }
    if (auto *p = dyn_cast<CXXDefaultArgExpr>(e)) return E(p->getExpr());
    if (auto *p = dyn_cast<CXXDefaultInitExpr>(e)) return E(p->getExpr());
    Value f = whole ? fold(e) : Value(nullptr);
    if (f.kind() != Value::Null) {
      // a folded floating-point computation also keeps the expression it was written as
      bool op = isa<BinaryOperator>(e) && !cast<BinaryOperator>(e)->isAssignmentOp();
      if (auto *u = dyn_cast<UnaryOperator>(e)) op = u->getOpcode() == UO_Minus;
      if (auto *c = dyn_cast<CastExpr>(e)) op = c->getCastKind() == CK_FloatingCast || c->getCastKind() == CK_IntegralToFloating || c->getCastKind() == CK_NoOp;
      if (op && e->getType()->isRealFloatingType() && f.getAsObject()) (*f.getAsObject())["src"] = E(e, false);
      return f;
    }
    Object o;
    o["t"] = T(e->getType());
    if (e->isLValue()) o["lv"] = true;
    if (auto *c = dyn_cast<CastExpr>(e)) {
      o["k"] = "cast";
      o["ck"] = c->getCastKindName();
      o["e"] = E(c->getSubExpr());
    } else if (auto *d = dyn_cast<DeclRefExpr>(e)) {
      const ValueDecl *vd = d->getDecl();
      if (auto *v = dyn_cast<VarDecl>(vd)) {
        o["k"] = "var";
        o["name"] = vd->getName();
        o["id"] = var(v);
        if (v->hasGlobalStorage()) {
          o["global"] = true;
          o["base"] = baseName(v);
          if (v->isConstexpr() || v->getType().isConstQualified()) {
            if (const APValue *av = v->evaluateValue()) {
              Value cv = constVal(*av, v->getType());
              if (cv.kind() != Value::Null) o["cv"] = std::move(cv);
            }
          }
        }
        if (auto *ce = dyn_cast<OMPCapturedExprDecl>(v)) {
          if (ce->getInit()) return E(ce->getInit());
        }
      } else if (auto *fd = dyn_cast<FunctionDecl>(vd)) {
        o["k"] = "fnref";
        o["callee"] = callee(fd);
      } else if (auto *b = dyn_cast<BindingDecl>(vd)) {
        o["k"] = "binding";
        o["id"] = var(b);
        if (b->getBinding()) o["e"] = E(b->getBinding());
      } else {
        o["k"] = "unsupported";
        o["what"] = "DeclRef";
      }
    } else if (auto *m = dyn_cast<MemberExpr>(e)) {
      const ValueDecl *vd = m->getMemberDecl();
      if (auto *fd = dyn_cast<FieldDecl>(vd)) {
        o["k"] = "member";
        o["field"] = fd->getName();
        o["rec"] = T(C.getRecordType(fd->getParent()));
        o["arrow"] = m->isArrow();
        o["e"] = E(m->getBase());
      } else if (auto *v = dyn_cast<VarDecl>(vd)) {
        o["k"] = "var";
        o["name"] = v->getName();
        o["id"] = var(v);
        o["global"] = true;
        o["base"] = baseName(v);
        if (const APValue *av = v->evaluateValue()) {
          Value cv = constVal(*av, v->getType());
          if (cv.kind() != Value::Null) o["cv"] = std::move(cv);
        }
      } else if (auto *fd = dyn_cast<FunctionDecl>(vd)) {
        o["k"] = "method";
        o["callee"] = callee(fd);
        o["arrow"] = m->isArrow();
        o["e"] = E(m->getBase());
      } else {
        o["k"] = "unsupported";
        o["what"] = "Member";
      }
    } else if (isa<CXXThisExpr>(e)) {
      o["k"] = "this";
    } else if (auto *b = dyn_cast<BinaryOperator>(e)) {
      o["k"] = "bin";
      o["op"] = b->getOpcodeStr();
      if (auto *ca = dyn_cast<CompoundAssignOperator>(b)) o["ct"] = T(ca->getComputationResultType());
      o["l"] = E(b->getLHS());
      o["r"] = E(b->getRHS());
    } else if (auto *u = dyn_cast<UnaryOperator>(e)) {
      o["k"] = "un";
      o["op"] = UnaryOperator::getOpcodeStr(u->getOpcode());
      o["post"] = u->isPostfix();
      o["e"] = E(u->getSubExpr());
    } else if (auto *c = dyn_cast<ConditionalOperator>(e)) {
      o["k"] = "cond";
      o["c"] = E(c->getCond());
      o["a"] = E(c->getTrueExpr());
      o["b"] = E(c->getFalseExpr());
    } else if (auto *c = dyn_cast<CXXOperatorCallExpr>(e)) {
      o["k"] = "call";
      if (auto *fd = c->getDirectCallee()) o["callee"] = callee(fd);
      o["op"] = getOperatorSpelling(c->getOperator());
      o["args"] = exprs(c->getArgs(), c->getArgs() + c->getNumArgs());
      o["loc"] = loc(e->getBeginLoc());
    } else if (auto *c = dyn_cast<CXXMemberCallExpr>(e)) {
      o["k"] = "call";
      if (auto *fd = c->getMethodDecl()) o["callee"] = callee(fd);
      auto *me = dyn_cast<MemberExpr>(c->getCallee()->IgnoreParens());
      if (me) {
        o["obj"] = E(me->getBase());
        o["arrow"] = me->isArrow();
      }
      o["args"] = exprs(c->getArgs(), c->getArgs() + c->getNumArgs());
      o["loc"] = loc(e->getBeginLoc());
    } else if (auto *c = dyn_cast<CallExpr>(e)) {
      o["k"] = "call";
      if (auto *fd = c->getDirectCallee()) o["callee"] = callee(fd);
      else o["ce"] = E(c->getCallee());
      o["args"] = exprs(c->getArgs(), c->getArgs() + c->getNumArgs());
      o["loc"] = loc(e->getBeginLoc());
    } else if (auto *c = dyn_cast<CXXConstructExpr>(e)) {
      o["k"] = "construct";
      o["callee"] = callee(c->getConstructor());
      o["copy"] = c->getConstructor()->isCopyOrMoveConstructor();
      o["args"] = exprs(c->getArgs(), c->getArgs() + c->getNumArgs());
      o["implicit"] = c->getConstructor()->isImplicit() || c->getConstructor()->isDefaulted();
    } else if (auto *l = dyn_cast<LambdaExpr>(e)) {
      o["k"] = "lambda";
      o["fn"] = fn(l->getCallOperator());
      Array caps;
      auto ci = l->capture_init_begin();
      for (auto &cp : l->captures()) {
        Object co;
        if (cp.capturesThis()) co["this"] = true;
        else if (cp.capturesVariable()) {
          co["id"] = var(cp.getCapturedVar());
          co["name"] = cp.getCapturedVar()->getName();
          co["byref"] = cp.getCaptureKind() == LCK_ByRef;
          if (*ci) co["init"] = E(*ci);
        }
        ++ci;
        caps.push_back(std::move(co));
      }
      o["caps"] = std::move(caps);
    } else if (auto *i = dyn_cast<InitListExpr>(e)) {
      o["k"] = "initlist";
      Array a;
      for (auto *x : i->inits()) a.push_back(E(x));
      o["args"] = std::move(a);
    } else if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) {
      o["k"] = "valueinit";
    } else if (auto *s = dyn_cast<ArraySubscriptExpr>(e)) {
      o["k"] = "sub";
      o["e"] = E(s->getBase());
      o["i"] = E(s->getIdx());
    } else if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) {
      o["k"] = "null";
    } else if (isa<StringLiteral>(e) || isa<PredefinedExpr>(e)) {
      o["k"] = "str";
    } else if (auto *p = dyn_cast<CXXStdInitializerListExpr>(e)) {
      o["k"] = "stdinit";
      o["e"] = E(p->getSubExpr());
    } else if (auto *p = dyn_cast<CXXPseudoDestructorExpr>(e)) {
      o["k"] = "pseudodtor";
      o["e"] = E(p->getBase());
    } else {
      o["k"] = "unsupported";
      o["what"] = e->getStmtClassName();
    }
    return Value(std::move(o));
  }

  Value V(const VarDecl *v) {
    Object o;
    o["k"] = "decl";
    o["name"] = v->getName();
    o["id"] = var(v);
    o["t"] = T(v->getType());
    o["isstatic"] = v->isStaticLocal();
    if (v->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
    o["cst"] = v->getType().isConstQualified();
    if (v->getInit()) o["init"] = E(v->getInit());
    o["loc"] = loc(v->getLocation());
    if (v->isConstexpr()) o["constexpr"] = true;
    return Value(std::move(o));
  }

  Value S(const Stmt *s) {
    if (!s) return nullptr;
    Object o;
    o["loc"] = loc(s->getBeginLoc());
    if (auto *c = dyn_cast<CompoundStmt>(s)) {
      o["k"] = "block";
      Array a;
      for (auto *x : c->body()) a.push_back(S(x));
      o["b"] = std::move(a);
    } else if (auto *d = dyn_cast<DeclStmt>(s)) {
      Array a;
      for (auto *x : d->decls()) {
        if (auto *dd = dyn_cast<DecompositionDecl>(x)) {
          a.push_back(Object{{"k", "unsupported"}, {"what", "decomposition"}});
        } else if (auto *v = dyn_cast<VarDecl>(x))
          a.push_back(V(v));
      }
      o["k"] = "decls";
      o["b"] = std::move(a);
    } else if (auto *i = dyn_cast<IfStmt>(s)) {
      if (i->isConstexpr()) {
        Expr::EvalResult r;
        if (i->getCond() && !i->getCond()->isValueDependent() &&
            i->getCond()->EvaluateAsRValue(r, C)) {
          bool b = r.Val.getInt().getBoolValue();
          const Stmt *t = b ? i->getThen() : i->getElse();
          if (!t) return Object{{"k", "null"}};
          return S(t);
        }
      }
      o["k"] = "if";
      if (i->getInit()) o["init"] = S(i->getInit());
      o["c"] = E(i->getCond());
      o["a"] = S(i->getThen());
      o["b"] = S(i->getElse());
    } else if (auto *f = dyn_cast<ForStmt>(s)) {
      o["k"] = "for";
      o["init"] = S(f->getInit());
      o["c"] = E(f->getCond());
      if (f->getInc()) o["inc"] = E(f->getInc());
      o["b"] = S(f->getBody());
    } else if (auto *w = dyn_cast<WhileStmt>(s)) {
      o["k"] = "while";
      o["c"] = E(w->getCond());
      o["b"] = S(w->getBody());
    } else if (auto *w = dyn_cast<DoStmt>(s)) {
      o["k"] = "do";
      o["c"] = E(w->getCond());
      o["b"] = S(w->getBody());
    } else if (auto *r = dyn_cast<CXXForRangeStmt>(s)) {
      o["k"] = "rangefor";
      o["range"] = E(r->getRangeInit());
      o["rt"] = T(r->getRangeInit()->getType());
      if (auto *rv = dyn_cast_or_null<VarDecl>(r->getRangeStmt()->getSingleDecl())) o["rv"] = var(rv);
      auto ini = [&](const DeclStmt *ds) -> const Expr * {
        auto *v = ds ? dyn_cast_or_null<VarDecl>(ds->getSingleDecl()) : nullptr;
        return v ? v->getInit() : nullptr;
      };
      if (auto *x = ini(r->getBeginStmt())) o["rbegin"] = E(x);
      if (auto *x = ini(r->getEndStmt())) o["rend"] = E(x);
      const VarDecl *lv = r->getLoopVariable();
      Object vo;
      vo["name"] = lv->getName();
      vo["id"] = var(lv);
      vo["t"] = T(lv->getType());
      o["var"] = std::move(vo);
      o["b"] = S(r->getBody());
    } else if (auto *r = dyn_cast<ReturnStmt>(s)) {
      o["k"] = "return";
      if (r->getRetValue()) o["e"] = E(r->getRetValue());
    } else if (isa<BreakStmt>(s)) {
      o["k"] = "break";
    } else if (isa<ContinueStmt>(s)) {
      o["k"] = "continue";
    } else if (isa<NullStmt>(s)) {
      o["k"] = "null";
    } else if (auto *sw = dyn_cast<SwitchStmt>(s)) {
      o["k"] = "switch";
      o["c"] = E(sw->getCond());
      o["b"] = S(sw->getBody());
    } else if (auto *cs = dyn_cast<CaseStmt>(s)) {
      o["k"] = "case";
      o["v"] = E(cs->getLHS());
      o["b"] = S(cs->getSubStmt());
    } else if (auto *ds = dyn_cast<DefaultStmt>(s)) {
      o["k"] = "default";
      o["b"] = S(ds->getSubStmt());
    } else if (auto *om = dyn_cast<OMPExecutableDirective>(s)) {
      o["k"] = "omp";
      o["dir"] = llvm::omp::getOpenMPDirectiveName(om->getDirectiveKind()).str();
      Array cl;
      for (auto *c : om->clauses()) {
        Object co;
        co["kind"] = llvm::omp::getOpenMPClauseName(c->getClauseKind()).str();
        if (auto *sc = dyn_cast<OMPScheduleClause>(c)) {
          if (sc->getChunkSize()) co["chunk"] = E(sc->getChunkSize());
          co["sched"] = (int)sc->getScheduleKind();
        }
        cl.push_back(std::move(co));
      }
      o["clauses"] = std::move(cl);
      const Stmt *raw = om->getRawStmt();
      while (auto *cap = dyn_cast_or_null<CapturedStmt>(raw)) raw = cap->getCapturedStmt();
      o["b"] = S(raw);
    } else if (auto *a = dyn_cast<AttributedStmt>(s)) {
      return S(a->getSubStmt());
    } else if (auto *e = dyn_cast<Expr>(s)) {
      o["k"] = "expr";
      o["e"] = E(e);
    } else {
      o["k"] = "unsupported";
      o["what"] = s->getStmtClassName();
    }
    return Value(std::move(o));
  }

  Value recOut(const RecordDecl *rd0, int id) {
    Object o;
    o["id"] = id;
    o["name"] = baseName(rd0);
    const RecordDecl *rd = rd0->getDefinition();
    o["t"] = T(C.getRecordType(rd0));
    if (!rd) {
      o["incomplete"] = true;
      return Value(std::move(o));
    }
    if (auto *sp = dyn_cast<ClassTemplateSpecializationDecl>(rd))
      o["args"] = targs(sp->getTemplateArgs().asArray());
    Array fs, bs;
    for (auto *f : rd->fields()) {
      Object fo{{"name", f->getName()}, {"t", T(f->getType())}};
      if (f->hasInClassInitializer() && f->getInClassInitializer())
        fo["init"] = E(f->getInClassInitializer());
      fs.push_back(std::move(fo));
    }
    if (auto *c = dyn_cast<CXXRecordDecl>(rd))
      for (auto &b : c->bases()) bs.push_back(T(b.getType()));
    o["fields"] = std::move(fs);
    o["bases"] = std::move(bs);
    return Value(std::move(o));
  }

  Value fnOut(const FunctionDecl *f, int id) {
    Object o;
    o["id"] = id;
    o["base"] = baseName(f);
    {
      std::string s;
      llvm::raw_string_ostream os(s);
      f->getNameForDiagnostic(os, PP, true);
      o["full"] = os.str();
    }
    o["loc"] = loc(f->getLocation());
    o["ret"] = T(f->getReturnType());
    if (auto *a = f->getTemplateSpecializationArgs()) o["targs"] = targs(a->asArray());
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      o["rec"] = T(C.getRecordType(m->getParent()));
      o["static"] = m->isStatic();
      o["const"] = m->isConst();
      o["implicit"] = m->isImplicit() || m->isDefaulted();
    }
    Array ps;
    for (auto *p : f->parameters())
      ps.push_back(Object{{"name", p->getName()}, {"id", var(p)}, {"t", T(p->getType())}});
    o["params"] = std::move(ps);
    if (auto *c = dyn_cast<CXXConstructorDecl>(f)) {
      Array is;
      for (auto *i : c->inits()) {
        Object io;
        if (i->isAnyMemberInitializer()) io["field"] = i->getAnyMember()->getName();
        else if (i->isBaseInitializer()) io["base"] = T(QualType(i->getBaseClass(), 0));
        else io["delegating"] = true;
        io["written"] = i->isWritten();
        io["e"] = E(i->getInit());
        is.push_back(std::move(io));
      }
      o["inits"] = std::move(is);
    }
    if (f->hasBody()) {
      o["body"] = S(f->getBody());
      std::string fl = loc(f->getBody()->getEndLoc());
      o["endloc"] = fl;
    }
    return Value(std::move(o));
  }

  void run(const std::vector<const FunctionDecl *> &roots) {
    for (auto *f : roots) fn(f);
    Array fns, recs;
    while (!fnQueue.empty() || !recQueue.empty()) {
      while (!fnQueue.empty()) {
        auto *f = fnQueue.front();
        fnQueue.pop_front();
        fns.push_back(fnOut(f, fnIds[f]));
      }
      while (!recQueue.empty()) {
        auto *r = recQueue.front();
        recQueue.pop_front();
        recs.push_back(recOut(r, recIds[r]));
      }
    }
    Array ts;
    for (auto &t : types) ts.push_back(std::move(t));
    Object top;
    top["types"] = std::move(ts);
    top["records"] = std::move(recs);
    top["functions"] = std::move(fns);
    std::error_code ec;
    llvm::raw_fd_ostream os(outFile, ec);
    os << Value(std::move(top)) << "\n";
  }
};

struct Roots : RecursiveASTVisitor<Roots> {
  std::vector<const FunctionDecl *> fs;
  bool VisitNamespaceDecl(NamespaceDecl *n) {
    if (n->getName() == "vroot")
      for (auto *d : n->decls())
        if (auto *f = dyn_cast<FunctionDecl>(d))
          if (f->hasBody()) fs.push_back(f);
    return true;
  }
};

struct Cons : ASTConsumer {
  CompilerInstance &CI;
  Cons(CompilerInstance &c) : CI(c) {}
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Roots r;
    for (auto *d : C.getTranslationUnitDecl()->decls())
      if (auto *n = dyn_cast<NamespaceDecl>(d))
        if (n->getName() == "vroot") r.VisitNamespaceDecl(n);
    Emit e(C);
    e.run(r.fs);
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &ci, StringRef) override {
    return std::make_unique<Cons>(ci);
  }
};

int main(int argc, const char **argv) {
  if (argc < 3) {
    llvm::errs() << "heuast OUT.json FILE.cpp [clang flags]\n";
    return 2;
  }
  outFile = argv[1];
  std::string src = argv[2];
  std::vector<std::string> args{"clang++", "-fsyntax-only", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"};
  for (int i = 3; i < argc; i++) args.push_back(argv[i]);
  args.push_back(src);
  auto FM = llvm::makeIntrusiveRefCnt<FileManager>(FileSystemOptions());
  tooling::ToolInvocation inv(args, std::make_unique<Act>(), FM.get());
  return inv.run() ? 0 : 1;
}
