// cxxfacts: dump a resolved, typed representation of every function defined
// under a source root, as one JSON document per translation unit.
//
// The dump is produced from the clang AST after template instantiation and
// overload resolution: names are resolved to declarations, implicit casts are
// removed (numeric ones are kept, flagged), lambdas become functions of their
// own.  The Python rules in /verif/vp analyse this dump; nothing here decides
// a property.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>

#include <fstream>
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::string gRoot;
static std::string gOut;
static bool gTokensOnly = false;

namespace {

class Dumper {
 public:
  explicit Dumper(ASTContext &ctx)
      : ctx_(ctx), sm_(ctx.getSourceManager()), pol_(ctx.getLangOpts()) {
    pol_.SuppressTagKeyword = true;
    pol_.SuppressScope = false;
    pol_.FullyQualifiedName = true;
    pol_.PrintCanonicalTypes = true;
    pol_.AnonymousTagLocations = false;
    pol_.Bool = true;
    pol_.SuppressUnwrittenScope = true;
    pol_.SuppressInlineNamespace =
        true;
    pol_.TerseOutput = true;
  }

  // -- locations -------------------------------------------------------
  auto file_of(SourceLocation loc) -> std::string {
    if (loc.isInvalid()) return "";
    loc = sm_.getExpansionLoc(loc);
    auto fe = sm_.getFileEntryRefForID(sm_.getFileID(loc));
    if (!fe) return "";
    auto it = files_.find(&fe->getFileEntry());
    if (it != files_.end()) return it->second;
    llvm::SmallString<256> real(fe->getFileEntry().tryGetRealPathName());
    std::string path = real.empty() ? fe->getName().str() : real.str().str();
    files_[&fe->getFileEntry()] = path;
    return path;
  }
  auto in_root(SourceLocation loc) -> bool {
    auto f = file_of(loc);
    return f.rfind(gRoot, 0) == 0;
  }
  auto rel(SourceLocation loc) -> std::string {
    auto f = file_of(loc);
    if (f.rfind(gRoot, 0) == 0) return f.substr(gRoot.size());
    return f;
  }
  auto line(SourceLocation loc) -> unsigned {
    return loc.isInvalid() ? 0 : sm_.getExpansionLineNumber(loc);
  }
  auto locid(SourceLocation loc) -> std::string {
    if (loc.isInvalid()) return "?";
    return rel(loc) + ":" + std::to_string(sm_.getExpansionLineNumber(loc)) +
           ":" + std::to_string(sm_.getExpansionColumnNumber(loc));
  }

  // -- types -----------------------------------------------------------
  auto type(QualType t) -> int64_t {
    if (t.isNull()) return -1;
    auto c = t.getCanonicalType();
    auto it = types_.find(c.getAsOpaquePtr());
    if (it != types_.end()) return it->second;
    std::string s = c.getAsString(pol_);
    auto jt = type_index_.find(s);
    int64_t ix;
    if (jt == type_index_.end()) {
      ix = static_cast<int64_t>(type_table_.size());
      type_index_[s] = ix;
      type_table_.push_back(s);
    } else {
      ix = jt->second;
    }
    types_[c.getAsOpaquePtr()] = ix;
    return ix;
  }

  auto qname(const NamedDecl *d) -> std::string {
    std::string s;
    llvm::raw_string_ostream os(s);
    d->printQualifiedName(os, pol_);
    os.flush();
    return s;
  }

  static auto pattern(const FunctionDecl *fd) -> const FunctionDecl * {
    if (auto *p = fd->getTemplateInstantiationPattern()) fd = p;
    return fd->getCanonicalDecl();
  }
  auto fid(const FunctionDecl *fd) -> std::string {
    if (auto *md = dyn_cast<CXXMethodDecl>(fd)) {
      if (md->getParent()->isLambda()) {
        return "L" + locid(md->getParent()->getBeginLoc());
      }
    }
    auto *p = pattern(fd);
    return locid(p->getLocation());
  }
  auto vid(const ValueDecl *d) -> std::string {
    const Decl *c = d->getCanonicalDecl();
    auto place = locid(c->getLocation());
    if (auto *p = dyn_cast<ParmVarDecl>(d)) {
      // the parameters expanded from one pack share their place in the source
      if (auto *f = dyn_cast<FunctionDecl>(p->getDeclContext())) {
        unsigned k = 0;
        for (auto *q : f->parameters()) {
          if (q == p) break;
          if (q->getLocation() == p->getLocation()) ++k;
        }
        if (k > 0) place += "#" + std::to_string(k);
      }
    }
    return place + ":" + d->getNameAsString();
  }

  // -- helpers -----------------------------------------------------------
  auto node(const char *k, const Stmt *s) -> json::Object {
    json::Object o;
    o["k"] = k;
    o["l"] = line(s->getBeginLoc());
    if (auto *e = dyn_cast<Expr>(s)) o["t"] = type(e->getType());
    return o;
  }

  template <class R> auto list(R r) -> json::Array {
    json::Array a;
    for (auto *e : r) a.push_back(expr(e));
    return a;
  }

  auto callee(json::Object &o, const FunctionDecl *fd) -> void {
    o["fn"] = qname(fd);
    o["fid"] = fid(fd);
    if (in_root(fd->getLocation())) o["repo"] = true;
    if (auto *md = dyn_cast<CXXMethodDecl>(fd)) {
      if (md->isConst()) o["cm"] = true;
      if (md->isStatic()) o["sm"] = true;
      if (md->isVirtual()) o["virt"] = true;
    }
    if (auto *args = fd->getTemplateSpecializationArgs()) {
      json::Array ta;
      bool any = false;
      for (auto &a : args->asArray()) {
        if (a.getKind() == TemplateArgument::Integral) {
          llvm::SmallString<16> s;
          a.getAsIntegral().toString(s);
          ta.push_back(s.str().str());
          any = true;
        } else if (a.getKind() == TemplateArgument::Type) {
          ta.push_back(type(a.getAsType()));
          any = true;
        }
      }
      if (any && ta.size() <= 6) o["ta"] = std::move(ta);
    }
    json::Array pt;
    for (auto *p : fd->parameters()) pt.push_back(type(p->getType()));
    o["pt"] = std::move(pt);
    if (auto *ft = fd->getType()->getAs<FunctionProtoType>()) {
      if (ft->isNothrow()) o["nx"] = true;
    }
  }

  auto expr(const Expr *e) -> json::Value {
    if (e == nullptr) return nullptr;
    // transparent wrappers
    while (true) {
      if (auto *x = dyn_cast<ParenExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<FullExpr>(e)) {
        e = x->getSubExpr();
        continue;
      }
      if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) {
        e = x->getSubExpr();
        continue;
      }
      if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) {
        e = x->getSubExpr();
        continue;
      }
      if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) {
        e = x->getReplacement();
        continue;
      }
      if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e)) {
        e = x->getSubExpr();
        continue;
      }
      if (auto *x = dyn_cast<ImplicitCastExpr>(e)) {
        switch (x->getCastKind()) {
          case CK_IntegralCast:
          case CK_FloatingToIntegral:
          case CK_IntegralToFloating:
          case CK_FloatingCast: {
            auto o = node("Cast", x);
            o["imp"] = true;
            o["ck"] = x->getCastKindName();
            o["e"] = expr(x->getSubExpr());
            return o;
          }
          default:
            e = x->getSubExpr();
            continue;
        }
      }
      if (auto *x = dyn_cast<CXXDefaultArgExpr>(e)) {
        auto o = node("DefArg", x);
        o["e"] = expr(x->getExpr());
        return o;
      }
      if (auto *x = dyn_cast<CXXDefaultInitExpr>(e)) {
        e = x->getExpr();
        continue;
      }
      if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
        // elidable copy/move
        if (x->getNumArgs() == 1 && x->getConstructor()->isCopyOrMoveConstructor() &&
            x->isElidable()) {
          e = x->getArg(0);
          continue;
        }
      }
      break;
    }

    if (auto *x = dyn_cast<DeclRefExpr>(e)) {
      auto o = node("Ref", x);
      auto *d = x->getDecl();
      o["n"] = d->getNameAsString();
      if (isa<ParmVarDecl>(d)) {
        o["d"] = "P";
        o["id"] = vid(d);
      } else if (auto *v = dyn_cast<VarDecl>(d)) {
        o["d"] = v->isLocalVarDecl() ? (v->isStaticLocal() ? "S" : "V") : "G";
        o["id"] = vid(d);
        if (!v->isLocalVarDecl()) {
          o["q"] = qname(d);
        }
        constant(o, x);
      } else if (isa<BindingDecl>(d)) {
        o["d"] = "B";
        o["id"] = vid(d);
      } else if (auto *f = dyn_cast<FunctionDecl>(d)) {
        o["d"] = "F";
        o["id"] = fid(f);
        o["q"] = qname(f);
        callee(o, f);
      } else if (auto *ec = dyn_cast<EnumConstantDecl>(d)) {
        o["d"] = "E";
        o["q"] = qname(ec);
        o["cv"] = (ec->getInitVal().isRepresentableByInt64() ? ec->getInitVal().getExtValue() : INT64_MAX);
      } else {
        o["d"] = "?";
        o["q"] = qname(d);
      }
      return o;
    }
    if (auto *x = dyn_cast<MemberExpr>(e)) {
      auto o = node("Mem", x);
      o["n"] = x->getMemberDecl()->getNameAsString();
      o["q"] = qname(x->getMemberDecl());
      o["id"] = vid(x->getMemberDecl());
      if (isa<CXXMethodDecl>(x->getMemberDecl())) o["meth"] = true;
      if (x->isArrow()) o["arrow"] = true;
      o["b"] = expr(x->getBase());
      constant(o, x);
      return o;
    }
    if (auto *x = dyn_cast<CXXOperatorCallExpr>(e)) {
      auto o = node("Call", x);
      o["op"] = getOperatorSpelling(x->getOperator());
      auto *fd = x->getDirectCallee();
      if (fd != nullptr) {
        callee(o, fd);
        if (isa<CXXMethodDecl>(fd) && !cast<CXXMethodDecl>(fd)->isStatic()) {
          o["obj"] = expr(x->getArg(0));
          json::Array a;
          for (unsigned i = 1; i < x->getNumArgs(); ++i)
            a.push_back(expr(x->getArg(i)));
          o["a"] = std::move(a);
          return o;
        }
      }
      o["a"] = list(x->arguments());
      return o;
    }
    if (auto *x = dyn_cast<CXXMemberCallExpr>(e)) {
      auto o = node("Call", x);
      if (auto *md = x->getMethodDecl()) {
        callee(o, md);
        if (isa<CXXConversionDecl>(md)) o["conv"] = true;
      }
      auto *obj = x->getImplicitObjectArgument();
      o["obj"] = expr(obj);
      if (auto *me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) {
        if (me->hasQualifier()) o["nonvirt"] = true;
        if (me->isArrow()) o["arrow"] = true;
      } else {
        o["ce"] = expr(x->getCallee());
      }
      o["a"] = list(x->arguments());
      return o;
    }
    if (auto *x = dyn_cast<CallExpr>(e)) {
      auto o = node("Call", x);
      if (auto *fd = x->getDirectCallee()) {
        callee(o, fd);
        if (x->getBuiltinCallee()) o["bi"] = true;
      } else {
        o["ce"] = expr(x->getCallee());
      }
      o["a"] = list(x->arguments());
      constant(o, x);
      return o;
    }
    if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
      auto o = node("Ctor", x);
      callee(o, x->getConstructor());
      if (x->getConstructor()->isCopyConstructor()) o["copy"] = true;
      if (x->getConstructor()->isMoveConstructor()) o["move"] = true;
      o["cls"] = qname(x->getConstructor()->getParent());
      if (auto *tmp = dyn_cast<CXXTemporaryObjectExpr>(x)) {
        (void)tmp;
        o["explicit"] = true;
      }
      o["a"] = list(x->arguments());
      return o;
    }
    if (auto *x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
      auto o = node("Ctor", x);
      callee(o, x->getConstructor());
      o["cls"] = qname(x->getConstructor()->getParent());
      o["inherited"] = true;
      o["a"] = json::Array();
      return o;
    }
    if (auto *x = dyn_cast<LambdaExpr>(e)) {
      auto o = node("Lambda", x);
      auto *op = x->getCallOperator();
      o["fid"] = fid(op);
      json::Array caps;
      unsigned i = 0;
      auto inits = x->capture_inits();
      auto it = inits.begin();
      for (auto &c : x->captures()) {
        json::Object co;
        if (c.capturesThis()) {
          co["this"] = true;
          co["ref"] = c.getCaptureKind() == LCK_This;
        } else if (c.capturesVariable()) {
          auto *v = c.getCapturedVar();
          co["n"] = v->getNameAsString();
          co["id"] = vid(v);
          co["t"] = type(v->getType());
          co["ref"] = c.getCaptureKind() == LCK_ByRef;
          if (auto *vd = dyn_cast<VarDecl>(v)) {
            if (vd->isInitCapture()) co["init"] = expr(vd->getInit());
          }
        }
        if (c.isImplicit()) co["implicit"] = true;
        caps.push_back(std::move(co));
        ++i;
        ++it;
      }
      o["caps"] = std::move(caps);
      auto body = [&](const CXXMethodDecl *m) -> json::Object {
        json::Object b;
        json::Array ps;
        for (auto *p : m->parameters()) {
          json::Object po;
          po["n"] = p->getNameAsString();
          po["id"] = vid(p);
          po["t"] = type(p->getType());
          ps.push_back(std::move(po));
        }
        b["p"] = std::move(ps);
        b["ret"] = type(m->getReturnType());
        b["body"] = stmt(m->getBody());
        b["el"] = line(m->getEndLoc());
        if (auto *ft = m->getType()->getAs<FunctionProtoType>()) {
          if (ft->isNothrow()) b["nx"] = true;
        }
        if (!m->isConst()) b["mutable"] = true;
        return b;
      };
      o["file"] = rel(x->getBeginLoc());
      json::Array specs;
      if (auto *tpl = op->getDescribedFunctionTemplate()) {
        for (auto *spec : tpl->specializations()) {
          if (spec->hasBody() && !spec->isDependentContext())
            specs.push_back(body(cast<CXXMethodDecl>(spec)));
        }
      } else if (op->hasBody()) {
        specs.push_back(body(op));
      }
      o["specs"] = std::move(specs);
      return o;
    }
    if (auto *x = dyn_cast<BinaryOperator>(e)) {
      auto o = node(x->isAssignmentOp() ? "Assign" : "Bin", x);
      o["op"] = x->getOpcodeStr().str();
      o["a"] = expr(x->getLHS());
      o["b"] = expr(x->getRHS());
      if (!x->isAssignmentOp()) constant(o, x);
      return o;
    }
    if (auto *x = dyn_cast<CXXRewrittenBinaryOperator>(e)) {
      return expr(x->getSemanticForm());
    }
    if (auto *x = dyn_cast<UnaryOperator>(e)) {
      auto o = node("Un", x);
      o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      if (x->isPostfix()) o["post"] = true;
      o["a"] = expr(x->getSubExpr());
      constant(o, x);
      return o;
    }
    if (auto *x = dyn_cast<ConditionalOperator>(e)) {
      auto o = node("Cond", x);
      o["c"] = expr(x->getCond());
      o["a"] = expr(x->getTrueExpr());
      o["b"] = expr(x->getFalseExpr());
      return o;
    }
    if (auto *x = dyn_cast<ArraySubscriptExpr>(e)) {
      auto o = node("Sub", x);
      o["a"] = expr(x->getBase());
      o["b"] = expr(x->getIdx());
      return o;
    }
    if (auto *x = dyn_cast<ExplicitCastExpr>(e)) {
      auto o = node("Cast", x);
      o["ck"] = x->getCastKindName();
      o["sty"] = x->getStmtClassName();
      o["e"] = expr(x->getSubExpr());
      constant(o, x);
      return o;
    }
    if (auto *x = dyn_cast<IntegerLiteral>(e)) {
      auto o = node("Int", x);
      llvm::SmallString<32> s;
      x->getValue().toString(s, 10, x->getType()->isSignedIntegerType());
      o["v"] = s.str().str();
      return o;
    }
    if (auto *x = dyn_cast<FloatingLiteral>(e)) {
      auto o = node("Flt", x);
      o["v"] = x->getValueAsApproximateDouble();
      return o;
    }
    if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e)) {
      auto o = node("Bool", x);
      o["v"] = x->getValue();
      return o;
    }
    if (auto *x = dyn_cast<StringLiteral>(e)) {
      auto o = node("Str", x);
      if (x->getCharByteWidth() == 1) {
        auto str = x->getString();
        o["v"] = json::isUTF8(str) ? str.str() : json::fixUTF8(str);
      }
      return o;
    }
    if (auto *x = dyn_cast<CharacterLiteral>(e)) {
      auto o = node("Chr", x);
      o["v"] = static_cast<int64_t>(x->getValue());
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(e)) return node("Null", e);
    if (isa<CXXThisExpr>(e)) return node("This", e);
    if (auto *x = dyn_cast<CXXThrowExpr>(e)) {
      auto o = node("Throw", x);
      if (x->getSubExpr() != nullptr) {
        o["e"] = expr(x->getSubExpr());
        o["tt"] = type(x->getSubExpr()->getType());
        o["std"] = derives_from_std_exception(x->getSubExpr()->getType());
      }
      return o;
    }
    if (auto *x = dyn_cast<InitListExpr>(e)) {
      auto o = node("Init", x);
      json::Array a;
      for (auto *i : x->inits()) a.push_back(expr(i));
      o["a"] = std::move(a);
      return o;
    }
    if (auto *x = dyn_cast<CXXParenListInitExpr>(e)) {
      auto o = node("Init", x);
      json::Array a;
      for (auto *i : x->getInitExprs()) a.push_back(expr(i));
      o["a"] = std::move(a);
      return o;
    }
    if (auto *x = dyn_cast<CXXNewExpr>(e)) {
      auto o = node("New", x);
      o["e"] = expr(x->getInitializer());
      if (x->isArray()) o["n"] = expr(*x->getArraySize());
      return o;
    }
    if (auto *x = dyn_cast<CXXDeleteExpr>(e)) {
      auto o = node("Delete", x);
      o["e"] = expr(x->getArgument());
      return o;
    }
    if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
      auto o = node("SizeOf", x);
      constant(o, x);
      return o;
    }
    if (auto *x = dyn_cast<CXXScalarValueInitExpr>(e)) {
      auto o = node("Zero", x);
      return o;
    }
    if (isa<ImplicitValueInitExpr>(e)) return node("Zero", e);
    // Fallback: keep the children.
    auto o = node("Other", e);
    o["cls"] = e->getStmtClassName();
    constant(o, e);
    json::Array a;
    for (auto *c : e->children()) {
      if (auto *ce = dyn_cast_or_null<Expr>(c)) a.push_back(expr(ce));
    }
    o["a"] = std::move(a);
    return o;
  }

  auto constant(json::Object &o, const Expr *e) -> void {
    if (e->isValueDependent() || e->isTypeDependent()) return;
    if (!e->getType()->isIntegralOrEnumerationType()) return;
    Expr::EvalResult r;
    if (e->EvaluateAsInt(r, ctx_, Expr::SE_NoSideEffects)) {
      auto v = r.Val.getInt();
      if (v.isRepresentableByInt64()) {
        o["cv"] = v.isRepresentableByInt64() ? static_cast<int64_t>(v.getExtValue()) : INT64_MAX;
      } else {
        llvm::SmallString<32> s;
        v.toString(s);
        o["cvs"] = s.str().str();
      }
    }
  }

  auto derives_from_std_exception(QualType t) -> bool {
    auto *rd = t.getNonReferenceType()->getAsCXXRecordDecl();
    if (rd == nullptr) return false;
    if (qname(rd) == "std::exception") return true;
    if (!rd->hasDefinition()) return false;
    for (auto &b : rd->bases()) {
      if (derives_from_std_exception(b.getType())) return true;
    }
    return false;
  }

  auto vardecl(const VarDecl *v) -> json::Object {
    json::Object o;
    o["k"] = "Var";
    o["l"] = line(v->getLocation());
    o["n"] = v->getNameAsString();
    o["id"] = vid(v);
    o["t"] = type(v->getType());
    if (v->isStaticLocal()) o["static"] = true;
    if (v->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
    if (v->isConstexpr()) o["constexpr"] = true;
    if (v->getType()->isReferenceType()) o["ref"] = true;
    if (v->getType().isConstQualified()) o["const"] = true;
    if (v->getInit() != nullptr) o["init"] = expr(v->getInit());
    if (v->getInitStyle() == VarDecl::CallInit) o["callinit"] = true;
    if (auto *dd = dyn_cast<DecompositionDecl>(v)) {
      json::Array bs;
      int i = 0;
      for (auto *b : dd->bindings()) {
        json::Object bo;
        bo["n"] = b->getNameAsString();
        bo["id"] = vid(b);
        bo["i"] = i++;
        bo["t"] = type(b->getType());
        bs.push_back(std::move(bo));
      }
      o["bind"] = std::move(bs);
    }
    return o;
  }

  auto stmt(const Stmt *s) -> json::Value {
    if (s == nullptr) return nullptr;
    if (auto *x = dyn_cast<CompoundStmt>(s)) {
      auto o = node("Seq", x);
      o["el"] = line(x->getRBracLoc());
      json::Array a;
      for (auto *c : x->body()) a.push_back(stmt(c));
      o["s"] = std::move(a);
      return o;
    }
    if (auto *x = dyn_cast<DeclStmt>(s)) {
      auto o = node("Decl", x);
      json::Array a;
      for (auto *d : x->decls()) {
        if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(vardecl(v));
      }
      o["v"] = std::move(a);
      return o;
    }
    if (auto *x = dyn_cast<IfStmt>(s)) {
      auto o = node("If", x);
      if (x->isConstexpr()) o["cx"] = true;
      if (x->getInit() != nullptr) o["init"] = stmt(x->getInit());
      if (x->getConditionVariable() != nullptr)
        o["cv_"] = vardecl(x->getConditionVariable());
      o["c"] = expr(x->getCond());
      o["a"] = stmt(x->getThen());
      o["b"] = stmt(x->getElse());
      return o;
    }
    if (auto *x = dyn_cast<ForStmt>(s)) {
      auto o = node("For", x);
      o["init"] = stmt(x->getInit());
      o["c"] = expr(x->getCond());
      o["inc"] = expr(x->getInc());
      o["s"] = stmt(x->getBody());
      return o;
    }
    if (auto *x = dyn_cast<CXXForRangeStmt>(s)) {
      auto o = node("RFor", x);
      o["init"] = stmt(x->getInit());
      o["r"] = expr(x->getRangeInit());
      o["v"] = x->getLoopVariable() ? json::Value(vardecl(x->getLoopVariable()))
                                    : json::Value(nullptr);
      o["s"] = stmt(x->getBody());
      return o;
    }
    if (auto *x = dyn_cast<WhileStmt>(s)) {
      auto o = node("While", x);
      if (x->getConditionVariable() != nullptr)
        o["cv_"] = vardecl(x->getConditionVariable());
      o["c"] = expr(x->getCond());
      o["s"] = stmt(x->getBody());
      return o;
    }
    if (auto *x = dyn_cast<DoStmt>(s)) {
      auto o = node("Do", x);
      o["c"] = expr(x->getCond());
      o["s"] = stmt(x->getBody());
      return o;
    }
    if (auto *x = dyn_cast<SwitchStmt>(s)) {
      auto o = node("Switch", x);
      if (x->getInit() != nullptr) o["init"] = stmt(x->getInit());
      o["c"] = expr(x->getCond());
      if (auto *et = x->getCond()->IgnoreImpCasts()->getType()->getAs<EnumType>()) {
        json::Array en;
        for (auto *c : et->getDecl()->enumerators()) en.push_back(qname(c));
        o["enum"] = std::move(en);
      }
      o["s"] = stmt(x->getBody());
      return o;
    }
    if (auto *x = dyn_cast<CaseStmt>(s)) {
      auto o = node("Case", x);
      o["c"] = expr(x->getLHS());
      o["s"] = stmt(x->getSubStmt());
      return o;
    }
    if (auto *x = dyn_cast<DefaultStmt>(s)) {
      auto o = node("Default", x);
      o["s"] = stmt(x->getSubStmt());
      return o;
    }
    if (isa<BreakStmt>(s)) return node("Break", s);
    if (isa<ContinueStmt>(s)) return node("Continue", s);
    if (isa<NullStmt>(s)) return node("Null_", s);
    if (auto *x = dyn_cast<ReturnStmt>(s)) {
      auto o = node("Return", x);
      o["e"] = expr(x->getRetValue());
      return o;
    }
    if (auto *x = dyn_cast<CXXTryStmt>(s)) {
      auto o = node("Try", x);
      o["s"] = stmt(x->getTryBlock());
      json::Array h;
      for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
        auto *c = x->getHandler(i);
        json::Object ho;
        ho["l"] = line(c->getBeginLoc());
        if (c->getExceptionDecl() != nullptr) {
          ho["t"] = type(c->getCaughtType());
          ho["v"] = vardecl(c->getExceptionDecl());
        } else {
          ho["all"] = true;
        }
        ho["s"] = stmt(c->getHandlerBlock());
        h.push_back(std::move(ho));
      }
      o["h"] = std::move(h);
      return o;
    }
    if (auto *x = dyn_cast<AttributedStmt>(s)) return stmt(x->getSubStmt());
    if (auto *x = dyn_cast<LabelStmt>(s)) return stmt(x->getSubStmt());
    if (auto *x = dyn_cast<Expr>(s)) {
      auto o = node("Expr", x);
      o["e"] = expr(x);
      return o;
    }
    auto o = node("OtherS", s);
    o["cls"] = s->getStmtClassName();
    return o;
  }

  auto function(const FunctionDecl *fd, const LambdaExpr *lam) -> void {
    std::string id = fid(fd);
    json::Object o;
    o["id"] = id;
    o["q"] = qname(fd);
    o["n"] = fd->getNameAsString();
    o["file"] = rel(fd->getLocation());
    o["l"] = line(fd->getLocation());
    o["el"] = line(fd->getEndLoc());
    o["ret"] = type(fd->getReturnType());
    json::Array ps;
    for (auto *p : fd->parameters()) {
      json::Object po;
      po["n"] = p->getNameAsString();
      po["id"] = vid(p);
      po["t"] = type(p->getType());
      if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() &&
          !p->hasUnparsedDefaultArg())
        po["def"] = expr(p->getDefaultArg());
      ps.push_back(std::move(po));
    }
    o["p"] = std::move(ps);
    if (lam != nullptr) {
      o["kind"] = "lambda";
    } else if (isa<CXXConstructorDecl>(fd)) {
      o["kind"] = "ctor";
    } else if (isa<CXXDestructorDecl>(fd)) {
      o["kind"] = "dtor";
    } else if (isa<CXXMethodDecl>(fd)) {
      o["kind"] = "method";
    } else {
      o["kind"] = "func";
    }
    if (auto *md = dyn_cast<CXXMethodDecl>(fd)) {
      if (lam == nullptr) {
        o["cls"] = qname(md->getParent());
        o["clst"] = type(ctx_.getRecordType(md->getParent()));
        if (md->isConst()) o["const"] = true;
        if (md->isStatic()) o["static"] = true;
        if (md->isVirtual()) o["virtual"] = true;
        json::Array ov;
        for (auto *b : md->overridden_methods()) ov.push_back(fid(b));
        if (!ov.empty()) o["over"] = std::move(ov);
        switch (md->getAccess()) {
          case AS_public: o["acc"] = "public"; break;
          case AS_protected: o["acc"] = "protected"; break;
          case AS_private: o["acc"] = "private"; break;
          default: break;
        }
      }
    }
    if (auto *ft = fd->getType()->getAs<FunctionProtoType>()) {
      if (ft->isNothrow()) o["nx"] = true;
    }
    if (fd->isTemplateInstantiation()) o["inst"] = true;
    if (fd->isConstexpr()) o["constexpr"] = true;
    if (auto *args = fd->getTemplateSpecializationArgs()) {
      std::string s;
      llvm::raw_string_ostream os(s);
      for (auto &a : args->asArray()) {
        a.print(pol_, os, true);
        os << ";";
      }
      os.flush();
      o["targs"] = s;
    }
    if (auto *cd = dyn_cast<CXXConstructorDecl>(fd)) {
      json::Array in;
      for (auto *i : cd->inits()) {
        json::Object io;
        if (i->isMemberInitializer()) {
          io["m"] = i->getMember()->getNameAsString();
          io["mid"] = vid(i->getMember());
        } else if (i->isBaseInitializer()) {
          io["base"] = type(QualType(i->getBaseClass(), 0));
        } else if (i->isDelegatingInitializer()) {
          io["deleg"] = true;
        }
        if (i->isWritten()) io["w"] = true;
        io["e"] = expr(i->getInit());
        in.push_back(std::move(io));
      }
      o["inits"] = std::move(in);
    }
    o["body"] = stmt(fd->getBody());
    std::string text;
    llvm::raw_string_ostream os(text);
    os << json::Value(std::move(o));
    os.flush();
    if (seen_.insert(text).second) funcs_.push_back(std::move(text));
  }

  auto record(const CXXRecordDecl *rd) -> void {
    json::Object o;
    o["q"] = qname(rd);
    o["t"] = type(ctx_.getRecordType(rd));
    o["file"] = rel(rd->getLocation());
    o["l"] = line(rd->getLocation());
    json::Array f;
    for (auto *fd : rd->fields()) {
      json::Object fo;
      fo["n"] = fd->getNameAsString();
      fo["id"] = vid(fd);
      fo["t"] = type(fd->getType());
      if (fd->isMutable()) fo["mut"] = true;
      if (fd->hasInClassInitializer() && fd->getInClassInitializer() != nullptr)
        fo["init"] = expr(fd->getInClassInitializer());
      f.push_back(std::move(fo));
    }
    o["f"] = std::move(f);
    json::Array b;
    for (auto &bs : rd->bases()) b.push_back(type(bs.getType()));
    o["b"] = std::move(b);
    json::Array ms;
    for (auto *m : rd->methods()) {
      if (m->isImplicit()) continue;
      json::Object mo;
      mo["n"] = m->getNameAsString();
      mo["fid"] = fid(m);
      mo["t"] = type(m->getType());
      if (m->isConst()) mo["const"] = true;
      if (m->isVirtual()) mo["virt"] = true;
      if (m->isPureVirtual()) mo["pure"] = true;
      if (m->isDefaulted()) mo["dflt"] = true;
      if (m->isDeleted()) mo["del"] = true;
      if (m->getAccess() == AS_public) mo["pub"] = true;
      json::Array ps;
      for (auto *p : m->parameters()) ps.push_back(p->getNameAsString());
      mo["p"] = std::move(ps);
      ms.push_back(std::move(mo));
    }
    o["m"] = std::move(ms);
    // tuple/std::exception info
    std::string text;
    llvm::raw_string_ostream os(text);
    os << json::Value(std::move(o));
    os.flush();
    if (seen_.insert(text).second) recs_.push_back(std::move(text));
  }

  auto enumeration(const EnumDecl *ed) -> void {
    json::Object o;
    o["q"] = qname(ed);
    o["file"] = rel(ed->getLocation());
    o["l"] = line(ed->getLocation());
    json::Array f;
    for (auto *c : ed->enumerators()) {
      json::Array a;
      a.push_back(c->getNameAsString());
      a.push_back((c->getInitVal().isRepresentableByInt64() ? c->getInitVal().getExtValue() : INT64_MAX));
      f.push_back(std::move(a));
    }
    o["e"] = std::move(f);
    std::string text;
    llvm::raw_string_ostream os(text);
    os << json::Value(std::move(o));
    os.flush();
    if (seen_.insert(text).second) enums_.push_back(std::move(text));
  }

  auto global(const VarDecl *v) -> void {
    auto o = vardecl(v);
    o["q"] = qname(v);
    o["file"] = rel(v->getLocation());
    if (v->getType().isConstQualified()) o["const"] = true;
    std::string text;
    llvm::raw_string_ostream os(text);
    os << json::Value(std::move(o));
    os.flush();
    if (seen_.insert(text).second) globals_.push_back(std::move(text));
  }

  auto write(llvm::raw_ostream &os) -> void {
    auto arr = [&](const char *name, const std::vector<std::string> &v) {
      os << "\"" << name << "\":[";
      bool first = true;
      for (auto &s : v) {
        if (!first) os << ",\n";
        first = false;
        os << s;
      }
      os << "]";
    };
    os << "{";
    arr("funcs", funcs_);
    os << ",\n";
    arr("recs", recs_);
    os << ",\n";
    arr("enums", enums_);
    os << ",\n";
    arr("globals", globals_);
    os << ",\n\"types\":[";
    bool first = true;
    for (auto &t : type_table_) {
      if (!first) os << ",\n";
      first = false;
      os << json::Value(json::isUTF8(t) ? t : json::fixUTF8(t));
    }
    os << "],\n\"deps\":[";
    first = true;
    for (auto &d : deps_) {
      if (!first) os << ",\n";
      first = false;
      os << json::Value(d);
    }
    os << "]}\n";
  }

  std::set<std::string> deps_;

 private:
  ASTContext &ctx_;
  SourceManager &sm_;
  PrintingPolicy pol_;
  std::map<const FileEntry *, std::string> files_;
  std::map<void *, int64_t> types_;
  std::map<std::string, int64_t> type_index_;
  std::vector<std::string> type_table_;
  std::vector<std::string> funcs_, recs_, enums_, globals_;
  std::set<std::string> seen_;

 public:
  auto ctx() -> ASTContext & { return ctx_; }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
 public:
  explicit Visitor(Dumper &d) : d_(d) {}
  auto shouldVisitTemplateInstantiations() const -> bool { return true; }
  auto shouldVisitImplicitCode() const -> bool { return false; }

  auto VisitFunctionDecl(FunctionDecl *fd) -> bool {
    if (!fd->doesThisDeclarationHaveABody()) return true;
    if (fd->isDependentContext()) return true;
    if (!d_.in_root(fd->getLocation())) return true;
    if (fd->isDefaulted()) return true;
    if (auto *md = dyn_cast<CXXMethodDecl>(fd)) {
      if (md->getParent()->isLambda()) return true;  // via LambdaExpr
    }
    d_.function(fd, nullptr);
    return true;
  }
  auto VisitCXXRecordDecl(CXXRecordDecl *rd) -> bool {
    if (!rd->isThisDeclarationADefinition() || rd->isDependentContext() ||
        rd->isLambda())
      return true;
    if (!d_.in_root(rd->getLocation())) return true;
    d_.record(rd);
    return true;
  }
  auto VisitEnumDecl(EnumDecl *ed) -> bool {
    if (!ed->isThisDeclarationADefinition() || ed->isDependentContext())
      return true;
    if (!d_.in_root(ed->getLocation())) return true;
    d_.enumeration(ed);
    return true;
  }
  auto VisitVarDecl(VarDecl *v) -> bool {
    if (v->isLocalVarDecl() || isa<ParmVarDecl>(v)) return true;
    if (v->isInvalidDecl() || v->getDeclContext()->isDependentContext() ||
        v->getType()->isDependentType() || isa<VarTemplatePartialSpecializationDecl>(v))
      return true;
    if (v->getDescribedVarTemplate() != nullptr) return true;
    if (!d_.in_root(v->getLocation())) return true;
    d_.global(v);
    return true;
  }

 private:
  Dumper &d_;
};

class Consumer : public ASTConsumer {
 public:
  auto HandleTranslationUnit(ASTContext &ctx) -> void override {
    if (ctx.getDiagnostics().hasErrorOccurred()) {
      llvm::errs() << "cxxfacts: the translation unit does not compile\n";
      return;
    }
    Dumper d(ctx);
    Visitor v(d);
    v.TraverseDecl(ctx.getTranslationUnitDecl());
    auto &sm = ctx.getSourceManager();
    for (auto it = sm.fileinfo_begin(); it != sm.fileinfo_end(); ++it) {
      auto name = it->first.getFileEntry().tryGetRealPathName();
      if (!name.empty() && name.starts_with(gRoot)) d.deps_.insert(name.str());
    }
    std::error_code ec;
    llvm::raw_fd_ostream os(gOut, ec);
    if (ec) {
      llvm::errs() << "cxxfacts: cannot write " << gOut << "\n";
      return;
    }
    d.write(os);
  }
};

class Action : public ASTFrontendAction {
 public:
  auto CreateASTConsumer(CompilerInstance &, llvm::StringRef)
      -> std::unique_ptr<ASTConsumer> override {
    return std::make_unique<Consumer>();
  }
};

}  // namespace

auto main(int argc, const char **argv) -> int {
  // cxxfacts ROOT OUT FILE -- flags...
  if (argc < 5) {
    llvm::errs() << "usage: cxxfacts ROOT OUT FILE -- flags\n";
    return 2;
  }
  gRoot = argv[1];
  gOut = argv[2];
  std::string file = argv[3];
  std::vector<std::string> flags;
  for (int i = 5; i < argc; ++i) flags.emplace_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {file});
  tool.clearArgumentsAdjusters();
  tool.appendArgumentsAdjuster(tooling::getClangSyntaxOnlyAdjuster());
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
