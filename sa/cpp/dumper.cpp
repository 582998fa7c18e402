// AST front end: dumps every function/record defined under given root prefixes as a compact JSON IR.
// usage: tridump OUT.json PREFIX[,PREFIX...] -- clang args...
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/ExprConcepts.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <set>
#include <map>
using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::vector<std::string> prefixes;
static std::string outfile;

struct Dumper {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl *, int> ids;
  Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.Bool               = true;
    PP.FullyQualifiedName = false;
  }
  int id(const Decl *d) {
    d       = d->getCanonicalDecl();
    auto it = ids.find(d);
    if (it != ids.end()) return it->second;
    int n  = ids.size() + 1;
    ids[d] = n;
    return n;
  }
  std::string ty(QualType t) { return t.isNull() ? "" : t.getAsString(PP); }
  std::string canon(QualType t) { return t.isNull() ? "" : t.getCanonicalType().getAsString(PP); }
  int line(SourceLocation l) { return SM.getExpansionLineNumber(l); }
  std::string file(SourceLocation l) {
    auto f = SM.getFilename(SM.getExpansionLoc(l));
    return f.str();
  }
  bool wanted(SourceLocation l) {
    auto f = file(l);
    for (auto &p : prefixes)
      if (f.rfind(p, 0) == 0) return true;
    return false;
  }
  std::string opName(BinaryOperatorKind k) { return BinaryOperator::getOpcodeStr(k).str(); }

  Value un(const char *why, const Stmt *s) {
    Object o{{"k", "unk"}, {"why", why}};
    if (s) o["ln"] = line(s->getBeginLoc());
    return o;
  }
  std::string nns(const NestedNameSpecifier *n) {
    if (!n) return "";
    std::string s;
    llvm::raw_string_ostream os(s);
    n->print(os, PP);
    return os.str();
  }
  Array exprs(llvm::ArrayRef<Expr *> a) {
    Array r;
    for (auto *e : a) r.push_back(expr(e));
    return r;
  }
  template <class R> Array exprsR(R &&rg) {
    Array r;
    for (auto *e : rg) r.push_back(expr(llvm::cast<Expr>(e)));
    return r;
  }

  Value callExpr(const CallExpr *ce) {
    Object o{{"k", "call"}, {"ln", line(ce->getBeginLoc())}, {"ty", ty(ce->getType())}};
    Array args;
    for (auto *a : ce->arguments()) {
      if (isa<CXXDefaultArgExpr>(a)) {
        Object d{{"k", "defarg"}, {"e", expr(cast<CXXDefaultArgExpr>(a)->getExpr())}};
        args.push_back(std::move(d));
      } else
        args.push_back(expr(a));
    }
    const Expr *cal = ce->getCallee()->IgnoreParenImpCasts();
    std::string fn;
    if (auto *me = dyn_cast<MemberExpr>(cal); me && isa<FieldDecl>(me->getMemberDecl())) {
      o["k"]  = "callv"; // call of a member object
      o["fe"] = expr(cal);
    } else if (me) {
      fn = me->getMemberDecl()->getNameAsString();
      if (auto *md = dyn_cast<CXXMethodDecl>(me->getMemberDecl())) {
        o["q"]     = md->getQualifiedNameAsString();
        o["fid"]   = id(pat(md));
        o["const"] = md->isConst();
        o["static"] = md->isStatic();
        Array pr;
        for (auto *p : md->parameters()) pr.push_back(canon(p->getType()));
        o["pt"] = std::move(pr);
      }
      o["o"] = expr(me->getBase());
      if (me->isArrow()) o["arrow"] = true;
      o["f"] = fn;
      addta(o, me);
    } else if (auto *de = dyn_cast<CXXDependentScopeMemberExpr>(cal)) {
      o["f"] = de->getMember().getAsString();
      if (!de->isImplicitAccess()) {
        o["o"] = expr(de->getBase());
        if (de->isArrow()) o["arrow"] = true;
      } else
        o["o"] = Object{{"k", "this"}};
      o["dep"] = true;
      addta(o, de);
    } else if (auto *um = dyn_cast<UnresolvedMemberExpr>(cal)) {
      o["f"] = um->getMemberName().getAsString();
      if (!um->isImplicitAccess()) {
        o["o"] = expr(um->getBase());
        if (um->isArrow()) o["arrow"] = true;
      } else
        o["o"] = Object{{"k", "this"}};
      o["dep"] = true;
      Array c;
      for (auto *d : um->decls()) c.push_back(id(pat(d->getUnderlyingDecl())));
      o["cands"] = std::move(c);
      addta(o, um);
    } else if (auto *dr = dyn_cast<DeclRefExpr>(cal)) {
      if (auto *fd = dyn_cast<FunctionDecl>(dr->getDecl())) {
        o["f"]   = fd->getNameAsString();
        o["q"]   = fd->getQualifiedNameAsString();
        o["fid"] = id(pat(fd));
        Array pr;
        for (auto *p : fd->parameters()) pr.push_back(canon(p->getType()));
        o["pt"] = std::move(pr);
        if (dr->hasExplicitTemplateArgs()) {
          Array ta;
          for (auto &a : dr->template_arguments()) ta.push_back(targv(a.getArgument()));
          o["ta"] = std::move(ta);
        }
      } else {
        o["k"]  = "callv"; // call of a variable
        o["fe"] = expr(cal);
      }
    } else if (auto *ul = dyn_cast<UnresolvedLookupExpr>(cal)) {
      o["f"]   = ul->getName().getAsString();
      o["qf"]  = nns(ul->getQualifier()) + ul->getName().getAsString();
      o["dep"] = true;
      Array c;
      for (auto *d : ul->decls()) c.push_back(id(pat(d->getUnderlyingDecl())));
      o["cands"] = std::move(c);
      if (ul->hasExplicitTemplateArgs()) {
        Array ta;
        for (auto &a : ul->template_arguments()) ta.push_back(targv(a.getArgument()));
        o["ta"] = std::move(ta);
      }
    } else if (auto *ds = dyn_cast<DependentScopeDeclRefExpr>(cal)) {
      o["f"]   = ds->getDeclName().getAsString();
      o["qf"]  = nns(ds->getQualifier()) + ds->getDeclName().getAsString();
      o["dep"] = true;
      addta(o, ds);
    } else {
      o["k"]  = "callv";
      o["fe"] = expr(cal);
    }
    o["a"] = std::move(args);
    return o;
  }
  Value targv(const TemplateArgument &a) {
    if (a.getKind() == TemplateArgument::Expression) return expr(a.getAsExpr());
    if (a.getKind() == TemplateArgument::Type) return Value(canon(a.getAsType()));
    return Value(targ(a));
  }
  template <typename N> void addta(Object &o, N *n) {
    if (!n->hasExplicitTemplateArgs()) return;
    Array ta;
    for (auto &a : n->template_arguments()) ta.push_back(targv(a.getArgument()));
    o["ta"] = std::move(ta);
  }
  Array ctorta(QualType t) {
    Array ta;
    if (auto *ts = t->getAs<TemplateSpecializationType>())
      for (auto &a : ts->template_arguments())
        if (a.getKind() == TemplateArgument::Expression && a.getAsExpr()->isInstantiationDependent()) ta.push_back(expr(a.getAsExpr()));
    return ta;
  }
  std::string targ(const TemplateArgument &a) {
    std::string s;
    llvm::raw_string_ostream os(s);
    a.print(PP, os, true);
    return os.str();
  }
  const Decl *pat(const Decl *d) {
    if (auto *ft = dyn_cast<FunctionTemplateDecl>(d)) d = ft->getTemplatedDecl();
    if (auto *f = dyn_cast<FunctionDecl>(d)) {
      if (auto *p = f->getTemplateInstantiationPattern()) return p->getCanonicalDecl();
      return f->getCanonicalDecl();
    }
    return d;
  }

  // 'i' integral, 'f' floating, 'd' dependent, 'o' other
  std::string intk(const Expr *e) {
    auto t = e->getType();
    if (t.isNull()) return "d";
    if (t->isDependentType()) return "d";
    auto c = t.getCanonicalType().getNonReferenceType();
    if (c->isBooleanType()) return "b";
    if (c->isIntegralOrEnumerationType()) {
      return (c->isUnsignedIntegerType() ? "u" : "i") + std::to_string(C.getTypeSize(c));
    }
    if (c->isFloatingType()) return "f";
    if (c->isPointerType()) return "p";
    return "o";
  }

  Value expr(const Expr *e) {
    if (!e) return nullptr;
    if (auto *x = dyn_cast<ParenExpr>(e)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<ExprWithCleanups>(e)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<ConstantExpr>(e)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return expr(x->getReplacement());
    if (auto *x = dyn_cast<CXXDefaultInitExpr>(e)) return expr(x->getExpr());
    if (auto *x = dyn_cast<CXXDefaultArgExpr>(e)) return expr(x->getExpr());
    if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<CXXRewrittenBinaryOperator>(e)) return expr(x->getSemanticForm());
    int ln = line(e->getBeginLoc());
    if (auto *x = dyn_cast<CastExpr>(e)) {
      auto k = x->getCastKind();
      switch (k) {
        case CK_IntegralCast:
        case CK_FloatingToIntegral:
        case CK_IntegralToFloating:
        case CK_IntegralToBoolean:
        case CK_FloatingToBoolean:
        case CK_PointerToBoolean:
        case CK_FloatingCast:
        case CK_Dependent:
        case CK_BooleanToSignedIntegral:
          if (isa<ExplicitCastExpr>(x) || k != CK_Dependent)
            return Object{{"k", "cast"},
                          {"ck", CastExpr::getCastKindName(k)},
                          {"ty", ty(x->getType())},
                          {"cty", canon(x->getType())},
                          {"from", canon(x->getSubExpr()->getType())},
                          {"exp", isa<ExplicitCastExpr>(x)},
                          {"e", expr(x->getSubExpr())},
                          {"ln", ln}};
          break;
        case CK_ToVoid: return expr(x->getSubExpr());
        case CK_ArrayToPointerDecay:
          if (isa<DeclRefExpr>(x->getSubExpr()->IgnoreParens()) || isa<MemberExpr>(x->getSubExpr()->IgnoreParens()) || isa<ArraySubscriptExpr>(x->getSubExpr()->IgnoreParens()))
            return Object{{"k", "cast"}, {"ck", "ArrayToPointerDecay"}, {"ty", ty(x->getType())}, {"e", expr(x->getSubExpr())}, {"ln", ln}};
          break;
        default: break;
      }
      if (auto *fc = dyn_cast<CXXFunctionalCastExpr>(x)) {
        if (k == CK_ConstructorConversion || k == CK_NoOp) return expr(fc->getSubExpr());
      }
      return expr(x->getSubExpr());
    }
    if (auto *x = dyn_cast<IntegerLiteral>(e)) {
      llvm::SmallString<32> s;
      x->getValue().toString(s, 10, x->getType()->isSignedIntegerType());
      return Object{{"k", "int"}, {"v", s.str().str()}, {"ty", ty(x->getType())}};
    }
    if (auto *x = dyn_cast<FloatingLiteral>(e)) {
      llvm::SmallString<40> s;
      x->getValue().toString(s);
      return Object{{"k", "flt"}, {"v", s.str().str()}};
    }
    if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e)) return Object{{"k", "bool"}, {"v", x->getValue()}};
    if (auto *x = dyn_cast<clang::StringLiteral>(e)) return Object{{"k", "str"}, {"v", x->isOrdinary() ? x->getString().str() : std::string("?")}};
    if (auto *x = dyn_cast<CharacterLiteral>(e)) return Object{{"k", "int"}, {"v", std::to_string(x->getValue())}, {"ty", "char"}};
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) return Object{{"k", "null"}};
    if (isa<CXXThisExpr>(e)) return Object{{"k", "this"}};
    if (auto *x = dyn_cast<UserDefinedLiteral>(e)) {
      return Object{{"k", "call"}, {"f", std::string("literal") + (x->getUDSuffix() ? x->getUDSuffix()->getName().str() : "")}, {"a", exprsR(x->arguments())}, {"ln", ln}};
    }
    if (auto *x = dyn_cast<DeclRefExpr>(e)) {
      auto *d = x->getDecl();
      Object o{{"k", "var"}, {"n", d->getNameAsString()}, {"id", id(d)}, {"ln", ln}, {"ty", ty(x->getType())}};
      if (auto *ec = dyn_cast<EnumConstantDecl>(d)) {
        o["k"]  = "enum";
        o["q"]  = ec->getQualifiedNameAsString();
        llvm::SmallString<32> s;
        ec->getInitVal().toString(s, 10);
        o["v"] = s.str().str();
      } else if (isa<FunctionDecl>(d)) {
        o["k"]   = "fref";
        o["q"]   = d->getQualifiedNameAsString();
        o["fid"] = id(pat(d));
      } else if (auto *vd = dyn_cast<VarDecl>(d)) {
        if (vd->isStaticDataMember() || vd->hasGlobalStorage()) {
          o["g"] = true;
          o["q"] = vd->getQualifiedNameAsString();
        }
      } else if (isa<BindingDecl>(d))
        o["bind"] = true;
      else if (isa<NonTypeTemplateParmDecl>(d))
        o["nttp"] = true;
      return o;
    }
    if (auto *x = dyn_cast<MemberExpr>(e)) {
      Object o{{"k", "mem"}, {"o", expr(x->getBase())}, {"f", x->getMemberDecl()->getNameAsString()}, {"ln", ln}, {"ty", ty(x->getType())}};
      if (x->isArrow()) o["arrow"] = true;
      if (auto *vd = dyn_cast<VarDecl>(x->getMemberDecl())) {
        o["g"] = true;
        o["q"] = vd->getQualifiedNameAsString();
      }
      if (isa<CXXMethodDecl>(x->getMemberDecl())) o["method"] = true;
      return o;
    }
    if (auto *x = dyn_cast<CXXDependentScopeMemberExpr>(e)) {
      if (x->isImplicitAccess() && x->getQualifier())
        return Object{{"k", "dref"}, {"n", nns(x->getQualifier()) + x->getMember().getAsString()}, {"ln", ln}};
      Object o{{"k", "mem"}, {"f", x->getMember().getAsString()}, {"ln", ln}, {"dep", true}};
      if (x->isImplicitAccess())
        o["o"] = Object{{"k", "this"}};
      else {
        o["o"] = expr(x->getBase());
        if (x->isArrow()) o["arrow"] = true;
      }
      return o;
    }
    if (auto *x = dyn_cast<DependentScopeDeclRefExpr>(e))
      return Object{{"k", "dref"}, {"n", nns(x->getQualifier()) + x->getDeclName().getAsString()}, {"ln", ln}};
    if (auto *x = dyn_cast<UnresolvedLookupExpr>(e)) {
      Array c;
      for (auto *d : x->decls()) c.push_back(id(pat(d->getUnderlyingDecl())));
      return Object{{"k", "dref"}, {"n", nns(x->getQualifier()) + x->getName().getAsString()}, {"cands", std::move(c)}, {"ln", ln}};
    }
    if (auto *x = dyn_cast<CXXOperatorCallExpr>(e)) {
      auto op = x->getOperator();
      Object o{{"ln", ln}, {"ty", ty(x->getType())}, {"ov", true}};
      if (auto *fd = x->getDirectCallee()) {
        o["q"]   = fd->getQualifiedNameAsString();
        o["fid"] = id(pat(fd));
        if (auto *md = dyn_cast<CXXMethodDecl>(fd)) o["const"] = md->isConst();
        Array pr;
        for (auto *p : fd->parameters()) pr.push_back(canon(p->getType()));
        o["pt"] = std::move(pr);
        o["t0"] = x->getNumArgs() ? canon(x->getArg(0)->getType()) : "";
      } else if (auto *ul = dyn_cast<UnresolvedLookupExpr>(x->getCallee()->IgnoreParenImpCasts())) {
        Array c;
        for (auto *d : ul->decls()) c.push_back(id(pat(d->getUnderlyingDecl())));
        o["cands"] = std::move(c);
      }
      std::string sp = getOperatorSpelling(op);
      int n          = x->getNumArgs();
      if (op == OO_Call) {
        o["k"]  = "callv";
        o["fe"] = expr(x->getArg(0));
        Array a;
        for (int i = 1; i < n; ++i) a.push_back(expr(x->getArg(i)));
        o["a"] = std::move(a);
      } else if (op == OO_Subscript) {
        o["k"] = "idx";
        o["o"] = expr(x->getArg(0));
        o["i"] = n > 1 ? expr(x->getArg(1)) : Value(nullptr);
      } else if (op == OO_Arrow) {
        o["k"] = "arrow";
        o["e"] = expr(x->getArg(0));
      } else if (n == 1 || op == OO_PlusPlus || op == OO_MinusMinus) {
        o["k"]  = "un";
        o["op"] = sp;
        o["e"]  = expr(x->getArg(0));
        if (op == OO_PlusPlus || op == OO_MinusMinus) o["post"] = (n == 2);
      } else {
        bool asg = (op == OO_Equal) || x->isAssignmentOp();
        o["k"]   = asg ? "asg" : "bin";
        o["op"]  = sp;
        o["l"]   = expr(x->getArg(0));
        o["r"]   = expr(x->getArg(1));
      }
      return o;
    }
    if (auto *x = dyn_cast<CallExpr>(e)) return callExpr(x);
    if (auto *x = dyn_cast<BinaryOperator>(e)) {
      Object o{{"op", opName(x->getOpcode())}, {"l", expr(x->getLHS())}, {"r", expr(x->getRHS())}, {"ln", ln}, {"ty", ty(x->getType())}};
      o["k"] = x->isAssignmentOp() ? "asg" : "bin";
      if (x->isAssignmentOp()) o["lty"] = canon(x->getLHS()->getType());
      o["lt"] = intk(x->getLHS());
      o["rt"] = intk(x->getRHS());
      return o;
    }
    if (auto *x = dyn_cast<UnaryOperator>(e)) {
      std::string sp = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      Object o{{"k", "un"}, {"op", sp}, {"e", expr(x->getSubExpr())}, {"ln", ln}, {"ty", ty(x->getType())}};
      if (x->isIncrementDecrementOp()) o["post"] = x->isPostfix();
      return o;
    }
    if (auto *x = dyn_cast<AbstractConditionalOperator>(e))
      return Object{{"k", "cond"}, {"c", expr(x->getCond())}, {"t", expr(x->getTrueExpr())}, {"f", expr(x->getFalseExpr())}, {"ln", ln}};
    if (auto *x = dyn_cast<ArraySubscriptExpr>(e)) return Object{{"k", "idx"}, {"o", expr(x->getLHS())}, {"i", expr(x->getRHS())}, {"ln", ln}};
    if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
      auto *cd = x->getConstructor();
      if (x->getNumArgs() == 1 && (cd->isCopyOrMoveConstructor()) ) {
        Object o{{"k", "copy"}, {"e", expr(x->getArg(0))}, {"ty", ty(x->getType())}, {"mv", cd->isMoveConstructor()}, {"fid", id(pat(cd))}};
        return o;
      }
      Array a;
      for (auto *y : x->arguments()) a.push_back(isa<CXXDefaultArgExpr>(y) ? Value(Object{{"k", "defarg"}, {"e", expr(cast<CXXDefaultArgExpr>(y)->getExpr())}}) : expr(y));
      return Object{{"k", "ctor"}, {"ty", ty(x->getType())}, {"ta", ctorta(x->getType())}, {"q", cd->getParent()->getQualifiedNameAsString()}, {"fid", id(pat(cd))}, {"a", std::move(a)}, {"ln", ln}, {"list", x->isListInitialization()}, {"deflt", cd->isDefaultConstructor()}, {"implicit", cd->isImplicit() || cd->isDefaulted()}};
    }
    if (auto *x = dyn_cast<CXXUnresolvedConstructExpr>(e))
      return Object{{"k", "ctor"}, {"ty", ty(x->getTypeAsWritten())}, {"a", exprsR(x->arguments())}, {"ta", ctorta(x->getTypeAsWritten())}, {"ln", ln}, {"dep", true}, {"list", x->isListInitialization()}};
    if (auto *x = dyn_cast<CXXScalarValueInitExpr>(e)) return Object{{"k", "ctor"}, {"ty", ty(x->getType())}, {"a", Array{}}, {"ln", ln}};
    if (auto *x = dyn_cast<ImplicitValueInitExpr>(e)) return Object{{"k", "ctor"}, {"ty", ty(x->getType())}, {"a", Array{}}, {"ln", ln}};
    if (auto *x = dyn_cast<InitListExpr>(e)) {
      Object o{{"k", "ilist"}, {"a", exprsR(x->inits())}, {"ty", ty(x->getType())}, {"ln", ln}};
      if (auto *rd = x->getType().isNull() ? nullptr : x->getType()->getAsCXXRecordDecl(); rd) {
        Array fs;
        for (auto *f : rd->fields()) fs.push_back(f->getNameAsString());
        o["fields"] = std::move(fs);
        o["q"] = rd->getQualifiedNameAsString();
      }
      return o;
    }
    if (auto *x = dyn_cast<RequiresExpr>(e)) {
      std::string t;
      llvm::raw_string_ostream os(t);
      x->printPretty(os, nullptr, PP);
      return Object{{"k", "concept"}, {"n", "requires"}, {"ta", Array{os.str()}}, {"ln", ln}};
    }
    if (auto *x = dyn_cast<ParenListExpr>(e)) return Object{{"k", "plist"}, {"a", exprsR(const_cast<ParenListExpr *>(x)->exprs())}, {"ln", ln}};
    if (auto *x = dyn_cast<CXXParenListInitExpr>(e)) return Object{{"k", "plist"}, {"a", exprsR(const_cast<CXXParenListInitExpr *>(x)->getInitExprs())}, {"ln", ln}};
    if (auto *x = dyn_cast<LambdaExpr>(e)) {
      Object o{{"k", "lambda"}, {"ln", ln}};
      Array caps;
      auto ci = x->capture_init_begin();
      for (auto &c : x->captures()) {
        Object oc;
        if (c.capturesThis())
          oc["this"] = true;
        else if (c.capturesVariable()) {
          oc["n"]     = c.getCapturedVar()->getNameAsString();
          oc["id"]    = id(c.getCapturedVar());
          oc["byref"] = (c.getCaptureKind() == LCK_ByRef);
          if (auto *vd = dyn_cast<VarDecl>(c.getCapturedVar()); vd && vd->isInitCapture()) { oc["init"] = vd->getInit() ? expr(vd->getInit()) : Value(nullptr); }
        }
        if (ci != x->capture_init_end()) ++ci;
        caps.push_back(std::move(oc));
      }
      o["caps"]   = std::move(caps);
      o["defcap"] = x->getCaptureDefault() == LCD_ByRef ? "&" : (x->getCaptureDefault() == LCD_ByCopy ? "=" : "");
      auto *m     = x->getCallOperator();
      o["params"] = params(m);
      o["mut"]    = x->isMutable();
      o["body"]   = stmt(x->getBody());
      return o;
    }
    if (auto *x = dyn_cast<CXXThrowExpr>(e)) return Object{{"k", "throw"}, {"e", expr(x->getSubExpr())}, {"ln", ln}, {"ty", x->getSubExpr() ? ty(x->getSubExpr()->getType()) : ""}};
    if (auto *x = dyn_cast<CXXNewExpr>(e)) return Object{{"k", "new"}, {"ty", ty(x->getAllocatedType())}, {"init", expr(x->getInitializer())}, {"size", x->isArray() && x->getArraySize() ? expr(*x->getArraySize()) : Value(nullptr)}, {"ln", ln}};
    if (auto *x = dyn_cast<CXXDeleteExpr>(e)) return Object{{"k", "delete"}, {"e", expr(x->getArgument())}, {"ln", ln}};
    if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
      if (!x->isValueDependent()) {
        Expr::EvalResult r;
        if (x->EvaluateAsInt(r, C)) {
          llvm::SmallString<32> s;
          r.Val.getInt().toString(s, 10);
          return Object{{"k", "int"}, {"v", s.str().str()}, {"sizeof", true}};
        }
      }
      return Object{{"k", "sizeof"}, {"t", x->isArgumentType() ? ty(x->getArgumentType()) : ""}};
    }
    if (auto *x = dyn_cast<SizeOfPackExpr>(e)) return Object{{"k", "sizeofpack"}, {"n", x->getPack()->getNameAsString()}};
    if (auto *x = dyn_cast<PackExpansionExpr>(e)) return Object{{"k", "pack"}, {"e", expr(x->getPattern())}};
    if (auto *x = dyn_cast<CXXFoldExpr>(e)) return Object{{"k", "fold"}, {"op", BinaryOperator::getOpcodeStr(x->getOperator()).str()}, {"e", expr(x->getPattern())}, {"init", expr(x->getInit())}, {"right", x->isRightFold()}, {"ln", ln}};
    if (auto *x = dyn_cast<TypeTraitExpr>(e)) {
      if (!x->isValueDependent()) return Object{{"k", "bool"}, {"v", x->getValue()}};
      return un("typetrait", e);
    }
    if (auto *x = dyn_cast<ConceptSpecializationExpr>(e)) {
      Object o{{"k", "concept"}, {"n", x->getNamedConcept()->getNameAsString()}, {"ln", ln}};
      Array ta;
      for (auto &a : x->getTemplateArguments()) ta.push_back(targ(a));
      o["ta"] = std::move(ta);
      return o;
    }
    if (auto *x = dyn_cast<CXXNoexceptExpr>(e)) return un("noexcept", e);
    if (auto *x = dyn_cast<CXXTypeidExpr>(e)) return Object{{"k", "typeid"}, {"ln", ln}};
    if (auto *x = dyn_cast<RecoveryExpr>(e)) {
      Object o{{"k", "unk"}, {"why", "recovery"}, {"ln", ln}};
      o["a"] = exprsR(const_cast<RecoveryExpr *>(x)->subExpressions());
      return o;
    }
    if (auto *x = dyn_cast<UnresolvedMemberExpr>(e)) {
      Object o{{"k", "mem"}, {"f", x->getMemberName().getAsString()}, {"ln", ln}, {"dep", true}};
      o["o"] = x->isImplicitAccess() ? Value(Object{{"k", "this"}}) : expr(x->getBase());
      return o;
    }
    if (auto *x = dyn_cast<PredefinedExpr>(e)) return Object{{"k", "str"}, {"v", "__func__"}};
    if (auto *x = dyn_cast<StmtExpr>(e)) return Object{{"k", "stmtexpr"}, {"b", stmt(x->getSubStmt())}};
    if (auto *x = dyn_cast<OpaqueValueExpr>(e)) return expr(x->getSourceExpr());
    if (auto *x = dyn_cast<ArrayInitLoopExpr>(e)) return expr(x->getCommonExpr());
    if (auto *x = dyn_cast<SourceLocExpr>(e)) return Object{{"k", "str"}, {"v", "__LINE__"}};
    return un(e->getStmtClassName(), e);
  }

  Array params(const FunctionDecl *f) {
    Array r;
    for (auto *p : f->parameters()) {
      Object o{{"n", p->getNameAsString()}, {"id", id(p)}, {"ty", ty(p->getType())}, {"cty", canon(p->getType())}};
      o["ref"]  = p->getType()->isReferenceType();
      o["cref"] = p->getType()->isReferenceType() && p->getType()->getPointeeType().isConstQualified();
      o["rref"] = p->getType()->isRValueReferenceType();
      if (p->isParameterPack()) o["pack"] = true;
      if (p->hasDefaultArg() && !p->hasUnparsedDefaultArg() && !p->hasUninstantiatedDefaultArg()) o["def"] = expr(p->getDefaultArg());
      else if (p->hasDefaultArg() && p->hasUninstantiatedDefaultArg()) o["def"] = expr(p->getUninstantiatedDefaultArg());
      r.push_back(std::move(o));
    }
    return r;
  }

  Value varDecl(const VarDecl *v) {
    Object o{{"k", "decl"}, {"n", v->getNameAsString()}, {"id", id(v)}, {"ty", ty(v->getType())}, {"cty", canon(v->getType())}, {"ln", line(v->getLocation())}};
    o["ref"]    = v->getType()->isReferenceType();
    o["const"]  = v->getType().isConstQualified() || (v->getType()->isReferenceType() && v->getType()->getPointeeType().isConstQualified());
    o["static"] = v->isStaticLocal();
    if (auto *d = dyn_cast<DecompositionDecl>(v)) {
      Array b;
      for (auto *x : d->bindings()) b.push_back(Object{{"n", x->getNameAsString()}, {"id", id(x)}});
      o["bind"] = std::move(b);
    }
    o["init"] = v->getInit() ? expr(v->getInit()) : Value(nullptr);
    if (v->getInit()) o["istyle"] = (int)v->getInitStyle();
    return o;
  }

  Value stmt(const Stmt *s) {
    if (!s) return nullptr;
    int ln = line(s->getBeginLoc());
    if (auto *x = dyn_cast<CompoundStmt>(s)) {
      Array a;
      for (auto *y : x->body()) a.push_back(stmt(y));
      return Object{{"k", "block"}, {"b", std::move(a)}};
    }
    if (auto *x = dyn_cast<DeclStmt>(s)) {
      Array a;
      for (auto *d : x->decls())
        if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(varDecl(v));
      if (a.size() == 1) return std::move(a[0]);
      return Object{{"k", "seq"}, {"b", std::move(a)}};
    }
    if (auto *x = dyn_cast<IfStmt>(s)) {
      Object o{{"k", "if"}, {"ln", ln}, {"c", expr(x->getCond())}, {"t", stmt(x->getThen())}, {"e", stmt(x->getElse())}};
      if (x->getInit()) o["init"] = stmt(x->getInit());
      if (x->isConstexpr()) o["cx"] = true;
      if (x->getConditionVariable()) o["cv"] = varDecl(x->getConditionVariable());
      return o;
    }
    if (auto *x = dyn_cast<ForStmt>(s))
      return Object{{"k", "for"}, {"ln", ln}, {"init", stmt(x->getInit())}, {"c", expr(x->getCond())}, {"inc", expr(x->getInc())}, {"b", stmt(x->getBody())}};
    if (auto *x = dyn_cast<WhileStmt>(s)) {
      Object o{{"k", "while"}, {"ln", ln}, {"c", expr(x->getCond())}, {"b", stmt(x->getBody())}};
      if (x->getConditionVariable()) o["cv"] = varDecl(x->getConditionVariable());
      return o;
    }
    if (auto *x = dyn_cast<DoStmt>(s)) return Object{{"k", "do"}, {"ln", ln}, {"c", expr(x->getCond())}, {"b", stmt(x->getBody())}};
    if (auto *x = dyn_cast<CXXForRangeStmt>(s)) {
      Object o{{"k", "rfor"}, {"ln", ln}, {"r", expr(x->getRangeInit())}, {"b", stmt(x->getBody())}};
      auto *v = x->getLoopVariable();
      Object vd{{"n", v->getNameAsString()}, {"id", id(v)}, {"ty", ty(v->getType())}, {"ref", v->getType()->isReferenceType()}, {"const", v->getType().isConstQualified() || (v->getType()->isReferenceType() && v->getType()->getPointeeType().isConstQualified())}};
      if (auto *d = dyn_cast<DecompositionDecl>(v)) {
        Array b;
        for (auto *y : d->bindings()) b.push_back(Object{{"n", y->getNameAsString()}, {"id", id(y)}});
        vd["bind"] = std::move(b);
      }
      o["v"] = std::move(vd);
      if (x->getInit()) o["init"] = stmt(x->getInit());
      return o;
    }
    if (auto *x = dyn_cast<ReturnStmt>(s)) return Object{{"k", "ret"}, {"ln", ln}, {"e", expr(x->getRetValue())}};
    if (isa<BreakStmt>(s)) return Object{{"k", "break"}, {"ln", ln}};
    if (isa<ContinueStmt>(s)) return Object{{"k", "continue"}, {"ln", ln}};
    if (isa<NullStmt>(s)) return Object{{"k", "block"}, {"b", Array{}}};
    if (auto *x = dyn_cast<SwitchStmt>(s)) {
      Object o{{"k", "switch"}, {"ln", ln}, {"c", expr(x->getCond())}, {"b", stmt(x->getBody())}};
      if (x->getInit()) o["init"] = stmt(x->getInit());
      return o;
    }
    if (auto *x = dyn_cast<CaseStmt>(s)) return Object{{"k", "case"}, {"ln", ln}, {"v", expr(x->getLHS())}, {"b", stmt(x->getSubStmt())}};
    if (auto *x = dyn_cast<DefaultStmt>(s)) return Object{{"k", "default"}, {"ln", ln}, {"b", stmt(x->getSubStmt())}};
    if (auto *x = dyn_cast<CXXTryStmt>(s)) {
      Array h;
      for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
        auto *c = x->getHandler(i);
        Object o{{"ln", line(c->getBeginLoc())}, {"ty", c->getCaughtType().isNull() ? "..." : ty(c->getCaughtType())}, {"b", stmt(c->getHandlerBlock())}};
        if (c->getExceptionDecl()) {
          o["n"]  = c->getExceptionDecl()->getNameAsString();
          o["id"] = id(c->getExceptionDecl());
        }
        h.push_back(std::move(o));
      }
      return Object{{"k", "try"}, {"ln", ln}, {"b", stmt(x->getTryBlock())}, {"h", std::move(h)}};
    }
    if (auto *x = dyn_cast<AttributedStmt>(s)) return stmt(x->getSubStmt());
    if (auto *x = dyn_cast<LabelStmt>(s)) return un("label", s);
    if (auto *x = dyn_cast<Expr>(s)) return Object{{"k", "expr"}, {"ln", ln}, {"e", expr(x)}};
    return un(s->getStmtClassName(), s);
  }

  Object func(const FunctionDecl *f) {
    Object o{{"name", f->getNameAsString()}, {"q", f->getQualifiedNameAsString()}, {"id", id(pat(f))}, {"file", file(f->getLocation())}, {"line", line(f->getLocation())}, {"ret", ty(f->getReturnType())}, {"params", params(f)}};
    o["eline"] = line(f->getEndLoc());
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      o["cls"]    = m->getParent()->getQualifiedNameAsString();
      o["const"]  = m->isConst();
      o["static"] = m->isStatic();
      o["acc"]    = (int)m->getAccess();
      o["rq"]     = (int)m->getRefQualifier();
      {
        std::string s;
        llvm::raw_string_ostream os(s);
        if (auto *sp = dyn_cast<ClassTemplateSpecializationDecl>(m->getParent())) sp->getNameForDiagnostic(os, PP, true);
        o["spec"] = os.str();
      }
    }
    if (auto *c = dyn_cast<CXXConstructorDecl>(f)) {
      o["ctor"] = true;
      Array in;
      for (auto *i : c->inits()) {
        Object io;
        if (i->isAnyMemberInitializer())
          io["f"] = i->getAnyMember()->getNameAsString();
        else if (i->isBaseInitializer())
          io["base"] = ty(QualType(i->getBaseClass(), 0));
        else
          io["deleg"] = true;
        io["written"] = i->isWritten();
        io["e"]       = expr(i->getInit());
        in.push_back(std::move(io));
      }
      o["inits"]  = std::move(in);
      o["copy"]   = c->isCopyConstructor();
      o["move"]   = c->isMoveConstructor();
    }
    if (isa<CXXDestructorDecl>(f)) o["dtor"] = true;
    if (auto *t = f->getDescribedFunctionTemplate()) {
      Array tp;
      for (auto *p : *t->getTemplateParameters()) tp.push_back(p->getNameAsString());
      o["tp"] = std::move(tp);
    }
    if (auto *rc = f->getTrailingRequiresClause()) o["req"] = true;
    o["deleted"]   = f->isDeleted();
    o["defaulted"] = f->isDefaulted();
    o["nodiscard"] = f->hasAttr<WarnUnusedResultAttr>();
    if (f->doesThisDeclarationHaveABody() && !f->isDefaulted() && !f->isDeleted()) o["body"] = stmt(f->getBody());
    return o;
  }
};

struct V : RecursiveASTVisitor<V> {
  Dumper D;
  Array funcs, recs, vars, enums;
  std::set<const Decl *> seen;
  V(ASTContext &c) : D(c) {}
  bool shouldVisitTemplateInstantiations() const { return false; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *f) {
    if (!D.wanted(f->getLocation())) return true;
    if (auto *m = dyn_cast<CXXMethodDecl>(f))
      if (m->getParent()->isLambda()) return true;
    if (!f->doesThisDeclarationHaveABody() && !f->isDeleted() && !f->isExplicitlyDefaulted()) return true;
    if (!seen.insert(f).second) return true;
    funcs.push_back(D.func(f));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *r) {
    if (!r->isThisDeclarationADefinition() || r->isLambda() || !D.wanted(r->getLocation())) return true;
    if (!seen.insert(r).second) return true;
    Object o{{"q", r->getQualifiedNameAsString()}, {"name", r->getNameAsString()}, {"file", D.file(r->getLocation())}, {"line", D.line(r->getLocation())}};
    {
      std::string s;
      llvm::raw_string_ostream os(s);
      if (auto *sp = dyn_cast<ClassTemplateSpecializationDecl>(r)) sp->getNameForDiagnostic(os, D.PP, true);
      o["spec"] = os.str();
    }
    Array fs;
    for (auto *d : r->decls()) {
      if (auto *f = dyn_cast<FieldDecl>(d)) {
        Object fo{{"n", f->getNameAsString()}, {"ty", D.ty(f->getType())}, {"cty", D.canon(f->getType())}, {"acc", (int)f->getAccess()}, {"line", D.line(f->getLocation())}, {"mut", f->isMutable()}};
        if (f->hasInClassInitializer()) fo["init"] = f->getInClassInitializer() ? D.expr(f->getInClassInitializer()) : Value(nullptr);
        fs.push_back(std::move(fo));
      } else if (auto *v = dyn_cast<VarDecl>(d)) {
        Object fo{{"n", v->getNameAsString()}, {"ty", D.ty(v->getType())}, {"static", true}, {"line", D.line(v->getLocation())}};
        if (v->getInit()) fo["init"] = D.expr(v->getInit());
        fs.push_back(std::move(fo));
      }
    }
    o["fields"] = std::move(fs);
    Array bs;
    for (auto &b : r->bases()) bs.push_back(D.ty(b.getType()));
    o["bases"] = std::move(bs);
    Array ms;
    for (auto *m : r->methods()) {
      if (m->isImplicit()) continue;
      Object mo{{"n", m->getNameAsString()}, {"acc", (int)m->getAccess()}, {"const", m->isConst()}, {"deleted", m->isDeleted()}, {"defaulted", m->isDefaulted()}, {"line", D.line(m->getLocation())}, {"np", (int)m->getNumParams()}};
      if (auto *c = dyn_cast<CXXConstructorDecl>(m)) {
        mo["ctor"] = true;
        mo["copy"] = c->isCopyConstructor();
        mo["move"] = c->isMoveConstructor();
      }
      if (m->isCopyAssignmentOperator()) mo["cassign"] = true;
      if (m->isMoveAssignmentOperator()) mo["massign"] = true;
      ms.push_back(std::move(mo));
    }
    o["methods"] = std::move(ms);
    recs.push_back(std::move(o));
    return true;
  }
  bool VisitVarDecl(VarDecl *v) {
    if (!v->hasGlobalStorage() || v->isStaticLocal() || !D.wanted(v->getLocation())) return true;
    Object o{{"q", v->getQualifiedNameAsString()}, {"n", v->getNameAsString()}, {"id", D.id(v)}, {"ty", D.ty(v->getType())}, {"cty", D.canon(v->getType())}, {"file", D.file(v->getLocation())}, {"line", D.line(v->getLocation())}};
    if (v->getTSCSpec() != TSCS_unspecified) o["tls"] = true;
    if (v->getInit()) o["init"] = D.expr(v->getInit());
    vars.push_back(std::move(o));
    return true;
  }
};

struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext &c) override {
    V v(c);
    v.TraverseDecl(c.getTranslationUnitDecl());
    Object o;
    o["functions"] = std::move(v.funcs);
    o["records"]   = std::move(v.recs);
    o["vars"]      = std::move(v.vars);
    o["errors"]    = (int)c.getDiagnostics().getClient()->getNumErrors();
    std::error_code ec;
    llvm::raw_fd_ostream os(outfile, ec);
    os << Value(std::move(o)) << "\n";
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override { return std::make_unique<Cons>(); }
};

int main(int argc, char **argv) {
  if (argc < 5) return 2;
  outfile = argv[1];
  std::string p = argv[2];
  size_t i      = 0;
  while (i <= p.size()) {
    auto j = p.find(',', i);
    if (j == std::string::npos) j = p.size();
    prefixes.push_back(p.substr(i, j - i));
    i = j + 1;
  }
  std::vector<std::string> args;
  args.push_back("clang++");
  for (int k = 4; k < argc; ++k) args.push_back(argv[k]);
  llvm::IntrusiveRefCntPtr<FileManager> FM(new FileManager(FileSystemOptions()));
  clang::tooling::ToolInvocation inv(args, std::make_unique<Act>(), FM.get());
  bool ok = inv.run();
  return ok ? 0 : 0;
}
