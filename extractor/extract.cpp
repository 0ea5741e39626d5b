// heir-extract: dumps the resolved (type-checked) program of one translation
// unit as JSON: functions with bodies (template instantiations included),
// records, enums and globals whose definition lies under a given root.
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Attr.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::vector<std::string> Roots;      // emit decls below these prefixes
static std::vector<std::string> Excludes;   // but not below these
static std::string OutPath;

namespace {

class Dumper : public RecursiveASTVisitor<Dumper> {
 public:
  explicit Dumper(ASTContext &ctx) : ctx(ctx), sm(ctx.getSourceManager()), pp(ctx.getPrintingPolicy()) {
    pp.SuppressTagKeyword = true;
    pp.FullyQualifiedName = true;
    pp.TerseOutput = true;
    pp.Bool = true;
    pp.SuppressUnwrittenScope = true;
    pp.SuppressInlineNamespace = true;
    pp.SuppressDefaultTemplateArgs = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool shouldVisitLambdaBody() const { return true; }

  ASTContext &ctx;
  SourceManager &sm;
  PrintingPolicy pp;
  Array functions, records, enums, globals;
  std::vector<std::string> types, files;
  std::unordered_map<std::string, int> typeIdx, fileIdx;
  std::set<const Decl *> seen;

  int typeId(QualType t) {
    if (t.isNull()) return -1;
    auto *p = t.getAsOpaquePtr();
    auto it = typePtr.find(p);
    if (it != typePtr.end()) return it->second;
    std::string s = t.getCanonicalType().getAsString(pp);
    auto f = typeIdx.find(s);
    int id;
    if (f != typeIdx.end()) id = f->second;
    else { id = types.size(); types.push_back(s); typeIdx[s] = id; }
    typePtr[p] = id;
    return id;
  }
  std::unordered_map<void *, int> typePtr;

  int fileId(StringRef f) {
    auto it = fileIdx.find(f.str());
    if (it != fileIdx.end()) return it->second;
    int id = files.size();
    files.push_back(f.str());
    fileIdx[f.str()] = id;
    return id;
  }
  bool inRoot(SourceLocation l) {
    if (l.isInvalid()) return false;
    StringRef f = sm.getFilename(sm.getExpansionLoc(l));
    for (auto &e : Excludes) if (f.starts_with(e)) return false;
    for (auto &r : Roots) if (f.starts_with(r)) return true;
    return false;
  }
  void loc(Object &o, SourceLocation l) {
    if (l.isInvalid()) return;
    auto e = sm.getExpansionLoc(l);
    o["l"] = (int64_t)sm.getExpansionLineNumber(l);
    if (l.isMacroID()) {
      o["mac"] = Lexer::getImmediateMacroName(l, sm, ctx.getLangOpts()).str();
    }
    (void)e;
  }
  std::string usr(const Decl *d) {
    SmallString<128> buf;
    if (index::generateUSRForDecl(d, buf)) return "?" + std::to_string((uintptr_t)d);
    return buf.str().str();
  }
  std::unordered_map<const Decl *, int> declIds;
  int64_t declId(const Decl *d) {
    d = d->getCanonicalDecl();
    auto it = declIds.find(d);
    if (it != declIds.end()) return it->second;
    int n = declIds.size() + 1;
    declIds[d] = n;
    return n;
  }
  std::string qname(const NamedDecl *d) {
    std::string s;
    llvm::raw_string_ostream os(s);
    d->printQualifiedName(os, pp);
    return os.str();
  }
  // Qualified name with the template arguments of enclosing class instances.
  std::string fullName(const NamedDecl *d) {
    std::string s;
    llvm::raw_string_ostream os(s);
    d->getNameForDiagnostic(os, pp, true);
    return os.str();
  }
  Array targs(const FunctionDecl *f) {
    Array a;
    if (auto *ta = f->getTemplateSpecializationArgs())
      for (auto &arg : ta->asArray()) addTArg(a, arg);
    return a;
  }
  void addTArg(Array &a, const TemplateArgument &arg) {
    if (arg.getKind() == TemplateArgument::Pack) {
      for (auto &x : arg.pack_elements()) addTArg(a, x);
      return;
    }
    if (arg.getKind() == TemplateArgument::Type) {
      a.push_back(arg.getAsType().getCanonicalType().getAsString(pp));
      return;
    }
    std::string s;
    llvm::raw_string_ostream os(s);
    arg.print(pp, os, true);
    a.push_back(os.str());
  }
  void callee(Object &o, const FunctionDecl *f) {
    if (!f) return;
    o["q"] = qname(f);
    o["n"] = f->getNameAsString();
    o["usr"] = usr(f);
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      if (m->isVirtual()) o["virt"] = true;
      if (m->isConst()) o["cm"] = true;
      if (m->isStatic()) o["stat"] = true;
      if (m->getParent()->isLambda()) o["lam"] = declId(m->getParent());
      o["cls"] = m->getParent()->isLambda() ? std::string("lambda") : fullName(m->getParent());
    }
    Array ta = targs(f);
    if (!ta.empty()) o["ta"] = std::move(ta);
    Array pt;
    bool anyRef = false;
    for (auto *p : f->parameters()) {
      QualType t = p->getType();
      // 'r' mutable ref, 'c' const ref, 'm' rvalue ref, 'p' pointer, 'v' value
      const char *k = "v";
      if (t->isRValueReferenceType()) k = "m";
      else if (t->isLValueReferenceType()) k = t->getPointeeType().isConstQualified() ? "c" : "r";
      else if (t->isPointerType()) k = "p";
      pt.push_back(k);
      for (auto *a : p->specific_attrs<AnnotateAttr>()) { (void)a; anyRef = true; }
    }
    o["pm"] = std::move(pt);
    Array an;
    collectAnnot(f, an);
    if (!an.empty()) o["an"] = std::move(an);
    if (anyRef) {
      Array pa;
      for (auto *p : f->parameters()) {
        std::string s;
        for (auto *a : p->specific_attrs<AnnotateAttr>()) s += (s.empty() ? "" : ",") + a->getAnnotation().str();
        pa.push_back(s);
      }
      o["pa"] = std::move(pa);
    }
    if (inRoot(f->getLocation())) o["in"] = true;
  }
  void collectAnnot(const FunctionDecl *f, Array &an) {
    for (auto *rd : f->redecls())
      for (auto *a : rd->specific_attrs<AnnotateAttr>()) { an.push_back(a->getAnnotation().str()); }
  }

  Value opt(const Stmt *s) { if (!s) return nullptr; return node(s); }
  Array nodes(ArrayRef<const Expr *> es) {
    Array a;
    for (auto *e : es) a.push_back(opt(e));
    return a;
  }
  Object varDecl(const VarDecl *v) {
    Object o;
    o["k"] = "Var";
    o["n"] = v->getNameAsString();
    o["id"] = declId(v);
    o["t"] = typeId(v->getType());
    if (v->isStaticLocal()) o["static"] = true;
    if (v->getType().getNonReferenceType().isConstQualified()) o["const"] = true;
    if (v->hasInit() && v->getInit()) {
      o["init"] = node(v->getInit());
      if (v->getInitStyle() == VarDecl::CallInit && !isa<CXXConstructExpr>(v->getInit()->IgnoreImplicit())) o["cinit"] = true;
    }
    if (auto *d = dyn_cast<DecompositionDecl>(v)) {
      Array b;
      for (auto *x : d->bindings()) {
        Object bo;
        bo["n"] = x->getNameAsString();
        bo["id"] = declId(x);
        bo["t"] = typeId(x->getType());
        if (auto *hv = x->getHoldingVar()) bo["hold"] = declId(hv);
        if (x->getBinding()) bo["b"] = node(x->getBinding());
        b.push_back(std::move(bo));
      }
      o["bind"] = std::move(b);
    }
    loc(o, v->getLocation());
    return o;
  }
  const Expr *strip(const Expr *e) {
    while (true) {
      if (auto *x = dyn_cast<ExprWithCleanups>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<ParenExpr>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<ConstantExpr>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = x->getReplacement();
      else if (auto *x = dyn_cast<ImplicitCastExpr>(e)) {
        switch (x->getCastKind()) {
          case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay:
          case CK_ArrayToPointerDecay: case CK_UserDefinedConversion: case CK_ConstructorConversion:
          case CK_DerivedToBase: case CK_UncheckedDerivedToBase: case CK_BuiltinFnToFnPtr:
          case CK_NullToPointer: case CK_BitCast:
            e = x->getSubExpr();
            break;
          default: return e;
        }
      } else if (auto *c = dyn_cast<CXXConstructExpr>(e)) {
        if (c->isElidable() && c->getNumArgs() >= 1) e = c->getArg(0);
        else return e;
      } else if (auto *p = dyn_cast<PseudoObjectExpr>(e)) {
        e = p->getResultExpr();
      } else return e;
    }
  }
  Value node(const Stmt *s) {
    Object o;
    if (auto *e = dyn_cast<Expr>(s)) {
      e = strip(e);
      o["t"] = typeId(e->getType());
      if (e->isLValue()) o["lv"] = true;
      loc(o, e->getBeginLoc());
      expr(o, e);
      return o;
    }
    loc(o, s->getBeginLoc());
    stmt(o, s);
    return o;
  }
  void expr(Object &o, const Expr *e) {
    if (auto *x = dyn_cast<IntegerLiteral>(e)) {
      o["k"] = "Int";
      SmallString<32> b;
      x->getValue().toString(b, 10, x->getType()->isSignedIntegerType());
      o["v"] = b.str().str();
    } else if (auto *x = dyn_cast<FloatingLiteral>(e)) {
      o["k"] = "Float";
      double dv = x->getValueAsApproximateDouble();
      if (dv == dv && dv - dv == 0) o["v"] = dv; else o["v"] = "inf";
    } else if (auto *x = dyn_cast<StringLiteral>(e)) {
      o["k"] = "Str";
      std::string v;
      if (x->getCharByteWidth() == 1) v = x->getString().str();
      o["v"] = llvm::json::fixUTF8(v);
    } else if (auto *x = dyn_cast<CharacterLiteral>(e)) {
      o["k"] = "Char";
      o["v"] = (int64_t)x->getValue();
    } else if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e)) {
      o["k"] = "Bool";
      o["v"] = x->getValue();
    } else if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) {
      o["k"] = "Null";
    } else if (isa<CXXThisExpr>(e)) {
      o["k"] = "This";
    } else if (auto *x = dyn_cast<DeclRefExpr>(e)) {
      ref(o, x->getDecl());
    } else if (auto *x = dyn_cast<MemberExpr>(e)) {
      auto *d = x->getMemberDecl();
      if (auto *m = dyn_cast<CXXMethodDecl>(d)) {
        o["k"] = "MethodRef";
        callee(o, m);
      } else {
        o["k"] = "Mem";
        o["n"] = d->getNameAsString();
        o["q"] = qname(d);
        o["id"] = declId(d);
        if (auto *v = dyn_cast<VarDecl>(d)) { (void)v; o["static"] = true; }
      }
      if (x->isArrow()) o["arrow"] = true;
      o["base"] = node(x->getBase());
    } else if (auto *x = dyn_cast<CXXOperatorCallExpr>(e)) {
      o["k"] = "OpCall";
      o["op"] = getOperatorSpelling(x->getOperator());
      callee(o, x->getDirectCallee());
      Array a;
      for (auto *y : x->arguments()) a.push_back(node(y));
      o["args"] = std::move(a);
      if (!x->getDirectCallee()) o["fn"] = node(x->getCallee());
    } else if (auto *x = dyn_cast<CXXMemberCallExpr>(e)) {
      o["k"] = "MCall";
      if (auto *m = x->getMethodDecl()) callee(o, m);
      if (auto *ob = x->getImplicitObjectArgument()) {
        o["obj"] = node(ob);
        if (auto *me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) {
          if (me->isArrow()) o["arrow"] = true;
          if (me->hasQualifier()) o["qual"] = true;
        }
      } else o["fn"] = node(x->getCallee());
      Array a;
      for (auto *y : x->arguments()) a.push_back(node(y));
      o["args"] = std::move(a);
    } else if (auto *x = dyn_cast<CallExpr>(e)) {
      o["k"] = "Call";
      callee(o, x->getDirectCallee());
      if (!x->getDirectCallee()) o["fn"] = node(x->getCallee());
      Array a;
      for (auto *y : x->arguments()) a.push_back(node(y));
      o["args"] = std::move(a);
      loc(o, x->getExprLoc());
    } else if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
      o["k"] = "New0";
      o["k"] = "Ctor";
      callee(o, x->getConstructor());
      o["cls"] = fullName(x->getConstructor()->getParent());
      if (x->getConstructor()->isCopyConstructor()) o["copy"] = true;
      if (x->getConstructor()->isMoveConstructor()) o["move"] = true;
      if (x->isListInitialization()) o["list"] = true;
      Array a;
      for (auto *y : x->arguments()) a.push_back(node(y));
      o["args"] = std::move(a);
    } else if (auto *x = dyn_cast<CXXUnresolvedConstructExpr>(e)) {
      o["k"] = "UCtor";
      Array a;
      for (auto *y : x->arguments()) a.push_back(node(y));
      o["args"] = std::move(a);
    } else if (auto *x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
      o["k"] = "ICtor";
      (void)x;
    } else if (auto *x = dyn_cast<CXXDefaultArgExpr>(e)) {
      o["k"] = "DefArg";
      o["e"] = node(x->getExpr());
    } else if (auto *x = dyn_cast<CXXDefaultInitExpr>(e)) {
      o["k"] = "DefInit";
      if (x->getExpr()) o["e"] = node(x->getExpr());
    } else if (auto *x = dyn_cast<CompoundAssignOperator>(e)) {
      o["k"] = "CAssign";
      o["op"] = BinaryOperator::getOpcodeStr(x->getOpcode()).str();
      o["a"] = node(x->getLHS());
      o["b"] = node(x->getRHS());
      o["ct"] = typeId(x->getComputationResultType());
    } else if (auto *x = dyn_cast<BinaryOperator>(e)) {
      o["k"] = x->isAssignmentOp() ? "Assign" : "Bin";
      o["op"] = BinaryOperator::getOpcodeStr(x->getOpcode()).str();
      o["a"] = node(x->getLHS());
      o["b"] = node(x->getRHS());
      loc(o, x->getOperatorLoc());
    } else if (auto *x = dyn_cast<CXXRewrittenBinaryOperator>(e)) {
      auto d = x->getDecomposedForm();
      o["k"] = "Bin";
      o["op"] = BinaryOperator::getOpcodeStr(d.Opcode).str();
      o["a"] = node(d.LHS);
      o["b"] = node(d.RHS);
      o["rew"] = true;
    } else if (auto *x = dyn_cast<UnaryOperator>(e)) {
      o["k"] = "Un";
      o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      if (x->isPostfix()) o["post"] = true;
      o["a"] = node(x->getSubExpr());
    } else if (auto *x = dyn_cast<ConditionalOperator>(e)) {
      o["k"] = "Cond";
      o["c"] = node(x->getCond());
      o["a"] = node(x->getTrueExpr());
      o["b"] = node(x->getFalseExpr());
    } else if (auto *x = dyn_cast<BinaryConditionalOperator>(e)) {
      o["k"] = "Elvis";
      o["a"] = node(x->getCommon());
      o["b"] = node(x->getFalseExpr());
    } else if (auto *x = dyn_cast<OpaqueValueExpr>(e)) {
      if (x->getSourceExpr()) { auto *se = strip(x->getSourceExpr()); expr(o, se); }
      else o["k"] = "Opaque";
    } else if (auto *x = dyn_cast<CastExpr>(e)) {
      o["k"] = "Cast";
      o["ck"] = x->getCastKindName();
      o["e"] = node(x->getSubExpr());
      if (isa<ImplicitCastExpr>(x)) o["imp"] = true;
      else o["ek"] = x->getStmtClassName();
    } else if (auto *x = dyn_cast<ArraySubscriptExpr>(e)) {
      o["k"] = "Idx";
      o["a"] = node(x->getBase());
      o["b"] = node(x->getIdx());
    } else if (auto *x = dyn_cast<InitListExpr>(e)) {
      o["k"] = "InitList";
      if (x->isSemanticForm() == false && x->getSemanticForm()) x = x->getSemanticForm();
      Array a;
      for (auto *y : x->inits()) a.push_back(y ? node(y) : Value(nullptr));
      o["args"] = std::move(a);
      if (auto *rt = x->getType()->getAsCXXRecordDecl()) {
        Array fs;
        for (auto *f : rt->fields()) fs.push_back(f->getNameAsString());
        o["fields"] = std::move(fs);
        o["cls"] = fullName(rt);
        o["nb"] = (int64_t)rt->getNumBases();
      }
    } else if (auto *x = dyn_cast<DesignatedInitExpr>(e)) {
      o["k"] = "Desig";
      o["e"] = node(x->getInit());
    } else if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e)) {
      o["k"] = "StdInit";
      o["e"] = node(x->getSubExpr());
    } else if (auto *x = dyn_cast<ImplicitValueInitExpr>(e)) {
      (void)x;
      o["k"] = "ZeroInit";
    } else if (auto *x = dyn_cast<CXXScalarValueInitExpr>(e)) {
      (void)x;
      o["k"] = "ZeroInit";
    } else if (auto *x = dyn_cast<LambdaExpr>(e)) {
      o["k"] = "Lambda";
      o["id"] = declId(x->getLambdaClass());
      Array caps;
      auto it = x->capture_init_begin();
      for (auto &c : x->captures()) {
        Object co;
        if (c.capturesThis()) co["this"] = true;
        else if (c.capturesVariable()) {
          co["n"] = c.getCapturedVar()->getNameAsString();
          co["id"] = declId(c.getCapturedVar());
          co["ref"] = c.getCaptureKind() == LCK_ByRef;
          if (x->isInitCapture(&c)) co["init"] = *it ? node(*it) : Value(nullptr);
        }
        ++it;
        caps.push_back(std::move(co));
      }
      o["caps"] = std::move(caps);
      const CXXMethodDecl *op = x->getCallOperator();
      o["params"] = params(op);
      o["usr"] = usr(op);
      o["rt"] = typeId(op->getReturnType());
      if (x->getLambdaClass()->isGenericLambda()) {
        o["generic"] = true;
        Array specs;
        if (auto *ft = op->getDescribedFunctionTemplate())
          for (auto *sp : ft->specializations()) {
            if (!sp->hasBody()) continue;
            Object so;
            so["ta"] = targs(sp);
            so["params"] = params(sp);
            so["usr"] = usr(sp);
            so["rt"] = typeId(sp->getReturnType());
            so["body"] = node(sp->getBody());
            specs.push_back(std::move(so));
          }
        o["specs"] = std::move(specs);
      }
      if (op->getBody()) o["body"] = node(op->getBody());
    } else if (auto *x = dyn_cast<CXXNewExpr>(e)) {
      o["k"] = "New";
      if (x->getInitializer()) o["e"] = node(x->getInitializer());
    } else if (auto *x = dyn_cast<CXXDeleteExpr>(e)) {
      o["k"] = "Delete";
      o["e"] = node(x->getArgument());
    } else if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
      o["k"] = "SizeOf";
      o["op"] = getTraitSpelling(x->getKind());
      o["of"] = typeId(x->getTypeOfArgument());
    } else if (auto *x = dyn_cast<CXXThrowExpr>(e)) {
      o["k"] = "Throw";
      if (x->getSubExpr()) o["e"] = node(x->getSubExpr());
    } else if (auto *x = dyn_cast<PackExpansionExpr>(e)) {
      o["k"] = "PackExp";
      o["e"] = node(x->getPattern());
    } else if (auto *x = dyn_cast<CXXFoldExpr>(e)) {
      o["k"] = "Fold";
      o["e"] = opt(x->getPattern());
    } else if (auto *x = dyn_cast<UnresolvedLookupExpr>(e)) {
      o["k"] = "URef";
      o["n"] = x->getName().getAsString();
    } else if (auto *x = dyn_cast<CXXDependentScopeMemberExpr>(e)) {
      o["k"] = "DMem";
      o["n"] = x->getMember().getAsString();
      if (!x->isImplicitAccess()) o["base"] = node(x->getBase());
      if (x->isArrow()) o["arrow"] = true;
    } else if (auto *x = dyn_cast<UnresolvedMemberExpr>(e)) {
      o["k"] = "DMem";
      o["n"] = x->getMemberName().getAsString();
      if (!x->isImplicitAccess()) o["base"] = node(x->getBase());
      if (x->isArrow()) o["arrow"] = true;
    } else if (auto *x = dyn_cast<DependentScopeDeclRefExpr>(e)) {
      o["k"] = "URef";
      o["n"] = x->getDeclName().getAsString();
    } else if (auto *x = dyn_cast<ParenListExpr>(e)) {
      o["k"] = "ParenList";
      Array a;
      for (unsigned i = 0; i < x->getNumExprs(); ++i) a.push_back(node(x->getExpr(i)));
      o["args"] = std::move(a);
    } else if (auto *x = dyn_cast<TypeTraitExpr>(e)) {
      o["k"] = "Bool";
      if (!x->isValueDependent()) o["v"] = x->getValue();
    } else if (isa<ArrayInitLoopExpr>(e)) {
      o["k"] = "ArrayCopy";
      o["e"] = node(cast<ArrayInitLoopExpr>(e)->getCommonExpr());
    } else if (auto *x = dyn_cast<StmtExpr>(e)) {
      o["k"] = "StmtExpr";
      o["body"] = node(x->getSubStmt());
    } else if (auto *x = dyn_cast<PredefinedExpr>(e)) {
      (void)x;
      o["k"] = "Str";
      o["v"] = "__func__";
    } else {
      o["k"] = "E?";
      o["cn"] = e->getStmtClassName();
      Array a;
      for (auto *c : e->children()) a.push_back(opt(c));
      o["args"] = std::move(a);
    }
  }
  void ref(Object &o, const ValueDecl *d) {
    o["k"] = "Ref";
    o["n"] = d->getNameAsString();
    o["id"] = declId(d);
    if (auto *ec = dyn_cast<EnumConstantDecl>(d)) {
      o["dk"] = "enum";
      o["q"] = qname(d);
      SmallString<32> b;
      ec->getInitVal().toString(b, 10);
      o["v"] = b.str().str();
    } else if (auto *f = dyn_cast<FunctionDecl>(d)) {
      o["dk"] = "func";
      callee(o, f);
    } else if (auto *v = dyn_cast<VarDecl>(d)) {
      if (isa<ParmVarDecl>(v)) o["dk"] = "param";
      else if (v->hasGlobalStorage() && !v->isStaticLocal()) {
        o["dk"] = "global";
        o["q"] = qname(v);
        if (const VarDecl *def = v->getDefinition())
          if (v->getType().isConstQualified() && def->getInit() && !def->getInit()->isValueDependent()) {
            if (auto *ev = def->evaluateValue()) { if (ev->isInt()) {
              SmallString<32> b; ev->getInt().toString(b, 10); o["cv"] = b.str().str();
            } else if (ev->isFloat()) { double dv = ev->getFloat().convertToDouble(); if (dv - dv == 0) o["cvf"] = dv; } }
          }
      } else o["dk"] = "var";
    } else if (isa<BindingDecl>(d)) o["dk"] = "bind";
    else { o["dk"] = "other"; o["q"] = qname(d); }
  }
  void stmt(Object &o, const Stmt *s) {
    if (auto *x = dyn_cast<CompoundStmt>(s)) {
      o["k"] = "Block";
      Array a;
      for (auto *y : x->body()) a.push_back(node(y));
      o["s"] = std::move(a);
      o["el"] = (int64_t)sm.getExpansionLineNumber(x->getEndLoc());
    } else if (auto *x = dyn_cast<DeclStmt>(s)) {
      o["k"] = "Decl";
      Array a;
      for (auto *d : x->decls()) if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(varDecl(v));
      o["v"] = std::move(a);
    } else if (auto *x = dyn_cast<IfStmt>(s)) {
      o["k"] = "If";
      if (x->isConstexpr()) o["cexpr"] = true;
      if (x->getInit()) o["init"] = node(x->getInit());
      if (x->getConditionVariable()) o["cvar"] = varDecl(x->getConditionVariable());
      o["c"] = node(x->getCond());
      o["a"] = node(x->getThen());
      if (x->getElse()) o["b"] = node(x->getElse());
    } else if (auto *x = dyn_cast<ForStmt>(s)) {
      o["k"] = "For";
      if (x->getInit()) o["init"] = node(x->getInit());
      if (x->getConditionVariable()) o["cvar"] = varDecl(x->getConditionVariable());
      if (x->getCond()) o["c"] = node(x->getCond());
      if (x->getInc()) o["inc"] = node(x->getInc());
      o["body"] = node(x->getBody());
    } else if (auto *x = dyn_cast<CXXForRangeStmt>(s)) {
      o["k"] = "RFor";
      if (x->getInit()) o["init"] = node(x->getInit());
      Object v = varDecl(x->getLoopVariable());
      v.erase("init");
      o["var"] = std::move(v);
      o["range"] = node(x->getRangeInit());
      o["body"] = node(x->getBody());
    } else if (auto *x = dyn_cast<WhileStmt>(s)) {
      o["k"] = "While";
      if (x->getConditionVariable()) o["cvar"] = varDecl(x->getConditionVariable());
      o["c"] = node(x->getCond());
      o["body"] = node(x->getBody());
    } else if (auto *x = dyn_cast<DoStmt>(s)) {
      o["k"] = "Do";
      o["c"] = node(x->getCond());
      o["body"] = node(x->getBody());
    } else if (auto *x = dyn_cast<SwitchStmt>(s)) {
      o["k"] = "Switch";
      if (x->getInit()) o["init"] = node(x->getInit());
      if (x->getConditionVariable()) o["cvar"] = varDecl(x->getConditionVariable());
      o["c"] = node(x->getCond());
      o["body"] = node(x->getBody());
    } else if (auto *x = dyn_cast<CaseStmt>(s)) {
      o["k"] = "Case";
      o["v"] = node(x->getLHS());
      if (x->getRHS()) o["v2"] = node(x->getRHS());
      o["s"] = node(x->getSubStmt());
    } else if (auto *x = dyn_cast<DefaultStmt>(s)) {
      o["k"] = "Default";
      o["s"] = node(x->getSubStmt());
    } else if (auto *x = dyn_cast<ReturnStmt>(s)) {
      o["k"] = "Return";
      if (x->getRetValue()) o["e"] = node(x->getRetValue());
    } else if (isa<BreakStmt>(s)) o["k"] = "Break";
    else if (isa<ContinueStmt>(s)) o["k"] = "Continue";
    else if (isa<NullStmt>(s)) o["k"] = "Nop";
    else if (auto *x = dyn_cast<CXXTryStmt>(s)) {
      o["k"] = "Try";
      o["body"] = node(x->getTryBlock());
      Array a;
      for (unsigned i = 0; i < x->getNumHandlers(); ++i) a.push_back(node(x->getHandler(i)->getHandlerBlock()));
      o["h"] = std::move(a);
    } else if (auto *x = dyn_cast<AttributedStmt>(s)) {
      o["k"] = "Block";
      Array a;
      a.push_back(node(x->getSubStmt()));
      o["s"] = std::move(a);
    } else if (auto *x = dyn_cast<LabelStmt>(s)) {
      o["k"] = "Label";
      o["s"] = node(x->getSubStmt());
    } else if (isa<GotoStmt>(s) || isa<IndirectGotoStmt>(s)) {
      o["k"] = "Goto";
    } else {
      o["k"] = "S?";
      o["cn"] = s->getStmtClassName();
      Array a;
      for (auto *c : s->children()) a.push_back(opt(c));
      o["args"] = std::move(a);
    }
  }
  Array params(const FunctionDecl *f) {
    Array a;
    for (auto *p : f->parameters()) {
      Object o;
      o["n"] = p->getNameAsString();
      o["id"] = declId(p);
      o["t"] = typeId(p->getType());
      if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg() && p->getDefaultArg())
        o["def"] = node(p->getDefaultArg());
      Array an;
      for (auto *at : p->specific_attrs<AnnotateAttr>()) an.push_back(at->getAnnotation().str());
      if (!an.empty()) o["an"] = std::move(an);
      a.push_back(std::move(o));
    }
    return a;
  }

  bool VisitFunctionDecl(FunctionDecl *f) {
    if (!f->isThisDeclarationADefinition() || !f->hasBody()) return true;
    if (f->isDefaulted() || f->isImplicit()) return true;
    if (!inRoot(f->getLocation())) return true;
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) return true;
    if (!seen.insert(f).second) return true;
    Object o;
    o["q"] = qname(f);
    o["full"] = fullName(f);
    o["n"] = f->getNameAsString();
    o["usr"] = usr(f);
    o["file"] = fileId(sm.getFilename(sm.getExpansionLoc(f->getLocation())));
    o["line"] = (int64_t)sm.getExpansionLineNumber(f->getLocation());
    o["end"] = (int64_t)sm.getExpansionLineNumber(f->getEndLoc());
    o["ret"] = typeId(f->getReturnType());
    o["params"] = params(f);
    if (f->isDependentContext()) o["dep"] = true;
    if (f->isTemplateInstantiation()) o["inst"] = true;
    Array ta = targs(f);
    if (!ta.empty()) o["ta"] = std::move(ta);
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      o["cls"] = fullName(m->getParent());
      o["clsq"] = qname(m->getParent());
      if (m->isVirtual()) o["virt"] = true;
      if (m->isConst()) o["cm"] = true;
      if (m->isStatic()) o["stat"] = true;
      o["access"] = (int64_t)m->getAccess();
      Array ov;
      for (auto *x : m->overridden_methods()) ov.push_back(usr(x));
      if (!ov.empty()) o["ov"] = std::move(ov);
    }
    if (f->isOverloadedOperator()) o["oper"] = getOperatorSpelling(f->getOverloadedOperator());
    if (auto *c = dyn_cast<CXXConstructorDecl>(f)) {
      Array in;
      for (auto *i : c->inits()) {
        Object io;
        if (i->isMemberInitializer()) io["f"] = i->getMember()->getNameAsString();
        else if (i->isBaseInitializer()) io["base"] = typeId(QualType(i->getBaseClass(), 0));
        if (i->isWritten()) io["w"] = true;
        if (i->getInit()) io["e"] = node(i->getInit());
        in.push_back(std::move(io));
      }
      o["inits"] = std::move(in);
      o["ctor"] = true;
    }
    Array an;
    collectAnnot(f, an);
    if (!an.empty()) o["an"] = std::move(an);
    o["body"] = node(f->getBody());
    functions.push_back(std::move(o));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *r) {
    if (!r->isThisDeclarationADefinition() || r->isLambda() || r->isImplicit()) return true;
    if (!inRoot(r->getLocation())) return true;
    if (!seen.insert(r).second) return true;
    Object o;
    o["q"] = qname(r);
    o["full"] = fullName(r);
    o["file"] = fileId(sm.getFilename(sm.getExpansionLoc(r->getLocation())));
    o["line"] = (int64_t)sm.getExpansionLineNumber(r->getLocation());
    if (r->isDependentContext()) o["dep"] = true;
    Array fs;
    for (auto *f : r->fields()) {
      Object fo;
      fo["n"] = f->getNameAsString();
      fo["t"] = typeId(f->getType());
      fo["acc"] = (int64_t)f->getAccess();
      if (f->isMutable()) fo["mut"] = true;
      if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = node(f->getInClassInitializer());
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    Array bs;
    for (auto &b : r->bases()) bs.push_back(typeId(b.getType()));
    o["bases"] = std::move(bs);
    Array ms;
    for (auto *m : r->methods()) {
      if (m->isImplicit()) continue;
      Object mo;
      mo["n"] = m->getNameAsString();
      mo["usr"] = usr(m);
      mo["acc"] = (int64_t)m->getAccess();
      mo["virt"] = m->isVirtual();
      mo["pure"] = m->isPureVirtual();
      mo["cm"] = m->isConst();
      mo["ret"] = typeId(m->getReturnType());
      mo["params"] = params(m);
      ms.push_back(std::move(mo));
    }
    o["methods"] = std::move(ms);
    records.push_back(std::move(o));
    return true;
  }
  bool VisitEnumDecl(EnumDecl *e) {
    if (!e->isThisDeclarationADefinition() || !inRoot(e->getLocation())) return true;
    if (!seen.insert(e).second) return true;
    Object o;
    o["q"] = qname(e);
    o["file"] = fileId(sm.getFilename(sm.getExpansionLoc(e->getLocation())));
    o["line"] = (int64_t)sm.getExpansionLineNumber(e->getLocation());
    Array v;
    for (auto *c : e->enumerators()) {
      Object eo;
      eo["n"] = c->getNameAsString();
      SmallString<32> b;
      c->getInitVal().toString(b, 10);
      eo["v"] = b.str().str();
      v.push_back(std::move(eo));
    }
    o["vals"] = std::move(v);
    enums.push_back(std::move(o));
    return true;
  }
  bool VisitVarDecl(VarDecl *v) {
    if (!v->hasGlobalStorage() || v->isStaticLocal() || !inRoot(v->getLocation())) return true;
    if (!v->isThisDeclarationADefinition()) return true;
    if (!seen.insert(v).second) return true;
    Object o = varDecl(v);
    o["q"] = qname(v);
    o["file"] = fileId(sm.getFilename(sm.getExpansionLoc(v->getLocation())));
    globals.push_back(std::move(o));
    return true;
  }
};

class Consumer : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext &ctx) override {
    Dumper d(ctx);
    d.TraverseDecl(ctx.getTranslationUnitDecl());
    Object o;
    o["functions"] = std::move(d.functions);
    o["records"] = std::move(d.records);
    o["enums"] = std::move(d.enums);
    o["globals"] = std::move(d.globals);
    Array ts, fs;
    for (auto &t : d.types) ts.push_back(t);
    for (auto &f : d.files) fs.push_back(f);
    o["types"] = std::move(ts);
    o["files"] = std::move(fs);
    Array deps;
    auto &sm = ctx.getSourceManager();
    for (auto it = sm.fileinfo_begin(); it != sm.fileinfo_end(); ++it) {
      std::string n = it->first.getName().str();
      for (auto &r : Roots) if (n.rfind(r, 0) == 0) { deps.push_back(n); break; }
    }
    o["deps"] = std::move(deps);
    o["errors"] = (int64_t)ctx.getDiagnostics().getClient()->getNumErrors();
    std::error_code ec;
    llvm::raw_fd_ostream os(OutPath, ec);
    os << Value(std::move(o));
  }
};
class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
    return std::make_unique<Consumer>();
  }
};
}  // namespace

// usage: heir-extract OUT.json SRC ROOT[,ROOT..] EXCLUDE[,..] -- flags...
int main(int argc, const char **argv) {
  if (argc < 6) return 2;
  OutPath = argv[1];
  std::string src = argv[2];
  auto split = [](const char *s, std::vector<std::string> &v) {
    SmallVector<StringRef> parts;
    StringRef(s).split(parts, ',', -1, false);
    for (auto p : parts) v.push_back(p.str());
  };
  split(argv[3], Roots);
  split(argv[4], Excludes);
  std::vector<std::string> flags;
  for (int i = 6; i < argc; ++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {src});
  int r = tool.run(tooling::newFrontendActionFactory<Action>().get());
  return r;
}
