// gdast: dumps the resolved, type-checked AST of the project's functions as JSON.
//   gdast ROOT FILE -- clang flags
// Only declarations whose spelling file lies below ROOT are dumped.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Attr.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;

static std::string gRoot;

struct J {  // tiny JSON writer: building strings directly
  static std::string q(llvm::StringRef s) {
    std::string o = "\"";
    char b[8];
    for (unsigned char c : s) {
      if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
      else if (c < 0x20 || c >= 0x7f) { snprintf(b, 8, "\\u%04x", c); o += b; }
      else o += (char)c;
    }
    return o + "\"";
  }
};

class Obj {
  std::string s = "{";
  bool first = true;
public:
  Obj &raw(const char *k, const std::string &v) {
    if (!first) s += ',';
    first = false;
    s += '"'; s += k; s += "\":"; s += v;
    return *this;
  }
  Obj &str(const char *k, llvm::StringRef v) { return raw(k, J::q(v)); }
  Obj &num(const char *k, long long v) { return raw(k, std::to_string(v)); }
  Obj &flag(const char *k, bool v) { if (v) raw(k, "1"); return *this; }
  std::string done() const { return s + "}"; }
};

static std::string arr(const std::vector<std::string> &v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); ++i) { if (i) s += ','; s += v[i]; }
  return s + "]";
}

class Dumper : public RecursiveASTVisitor<Dumper> {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::unique_ptr<MangleContext> MC;
  std::map<const Decl *, int> ids;
  std::map<std::string, std::string> types;
  std::map<std::string, std::string> records;
  std::set<std::string> seenFn;
  std::vector<std::string> fns, globals, enums;
  std::set<const Decl *> seenEnum;
  std::map<std::string, std::string> decls;
  int gensym = 0;

public:
  explicit Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.Bool = true;
    MC.reset(ItaniumMangleContext::create(C, C.getDiagnostics()));
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }

  bool inRoot(SourceLocation L) {
    if (L.isInvalid()) return false;
    L = SM.getExpansionLoc(L);
    llvm::StringRef f = SM.getFilename(L);
    return f.starts_with(gRoot);
  }
  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    llvm::StringRef f = SM.getFilename(L);
    if (f.starts_with(gRoot)) f = f.drop_front(gRoot.size());
    while (f.starts_with("/")) f = f.drop_front(1);
    return f.str();
  }
  int line(SourceLocation L) { return L.isValid() ? (int)SM.getExpansionLineNumber(L) : 0; }

  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = ids.find(D);
    if (it != ids.end()) return it->second;
    int n = (int)ids.size() + 1;
    return ids[D] = n;
  }

  std::string fid(const FunctionDecl *F) {
    std::string s;
    llvm::raw_string_ostream os(s);
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) MC->mangleName(GlobalDecl(CD, Ctor_Complete), os);
    else if (auto *DD = dyn_cast<CXXDestructorDecl>(F)) MC->mangleName(GlobalDecl(DD, Dtor_Complete), os);
    else if (MC->shouldMangleDeclName(F)) MC->mangleName(GlobalDecl(F), os);
    else os << F->getNameAsString();
    os.flush();
    bool internal = F->getFormalLinkage() != Linkage::External;
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda()) {
        internal = true;
        s += "#L" + std::to_string(line(M->getBeginLoc())) + "c" + std::to_string(SM.getExpansionColumnNumber(M->getBeginLoc()));
      }
    if (internal && inRoot(F->getLocation())) {
      std::string f = file(F->getLocation());
      llvm::StringRef ext = llvm::StringRef(f).rsplit('.').second;
      if (ext != "h" && ext != "hpp") s += "@" + f;   // headers: identical copies in every unit
    }
    return s;
  }
  std::string qn(const NamedDecl *D) {
    // qualified name without template arguments and inline namespaces
    std::string s = D->getNameAsString();
    if (auto *CD = dyn_cast<CXXConstructorDecl>(D)) s = CD->getParent()->getNameAsString();
    if (auto *DD = dyn_cast<CXXDestructorDecl>(D)) s = "~" + DD->getParent()->getNameAsString();
    if (auto *CV = dyn_cast<CXXConversionDecl>(D)) s = "operator " + CV->getConversionType().getCanonicalType().getAsString(PP);
    for (const DeclContext *DC = D->getDeclContext(); DC; DC = DC->getParent()) {
      if (auto *N = dyn_cast<NamespaceDecl>(DC)) {
        if (N->isInline() || N->isAnonymousNamespace()) continue;
        s = N->getNameAsString() + "::" + s;
      } else if (auto *R = dyn_cast<RecordDecl>(DC)) {
        std::string rn = R->getNameAsString();
        if (rn.empty()) continue;
        s = rn + "::" + s;
      } else if (isa<FunctionDecl>(DC)) break;
    }
    return s;
  }

  std::string ty(QualType T) {
    if (T.isNull()) return "";
    QualType U = T.getCanonicalType();
    bool cst = false;
    U = U.getUnqualifiedType();
    (void)cst;
    std::string name = U.getAsString(PP);
    if (types.count(name)) return name;
    types[name] = "{}";
    Obj o;
    if (U->isReferenceType()) {
      o.str("k", "ref").str("to", ty(U.getNonReferenceType())).flag("const", U.getNonReferenceType().isConstQualified()).flag("rv", U->isRValueReferenceType());
    } else if (U->isPointerType()) {
      o.str("k", "ptr").str("to", ty(U->getPointeeType())).flag("const", U->getPointeeType().isConstQualified());
    } else if (U->isBooleanType()) {
      o.str("k", "bool");
    } else if (U->isEnumeralType()) {
      auto *ED = U->castAs<EnumType>()->getDecl();
      o.str("k", "enum").str("name", qn(ED));
      if (ED->isComplete()) o.num("bits", C.getTypeSize(U)).flag("signed", U->isSignedIntegerOrEnumerationType());
    } else if (U->isIntegerType()) {
      o.str("k", "int").num("bits", C.getTypeSize(U)).flag("signed", U->isSignedIntegerType());
    } else if (U->isRealFloatingType()) {
      o.str("k", "float").num("bits", C.getTypeSize(U));
    } else if (U->isVoidType()) {
      o.str("k", "void");
    } else if (auto *AT = C.getAsConstantArrayType(U)) {
      o.str("k", "arr").str("to", ty(AT->getElementType())).num("n", AT->getSize().getZExtValue());
    } else if (auto *RD = U->getAsCXXRecordDecl()) {
      o.str("k", "rec").str("cls", qn(RD));
      if (auto *SD = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
        std::vector<std::string> ta;
        for (auto &A : SD->getTemplateArgs().asArray())
          if (A.getKind() == TemplateArgument::Type) ta.push_back(J::q(ty(A.getAsType())));
        o.raw("targs", arr(ta));
      }
      if (RD->hasDefinition()) {
        record(RD, name);
        o.str("rec", name);
        o.flag("ntd", !RD->hasTrivialDestructor());
        if (inRoot(RD->getLocation())) o.flag("own", true);
      }
    } else if (U->isFunctionType()) {
      o.str("k", "fn");
    } else if (U->isNullPtrType()) {
      o.str("k", "nullptr");
    } else {
      o.str("k", "other");
    }
    types[name] = o.done();
    return name;
  }

  void record(const CXXRecordDecl *RD, const std::string &name) {
    RD = RD->getDefinition();
    if (!RD || records.count(name)) return;
    if (!inRoot(RD->getLocation())) return;
    records[name] = "{}";
    Obj o;
    o.str("n", qn(RD)).str("file", file(RD->getLocation())).num("l", line(RD->getLocation())).flag("union", RD->isUnion());
    std::vector<std::string> fs, bs;
    for (auto *F : RD->fields()) {
      Obj fo;
      fo.str("n", fieldName(F)).str("t", ty(F->getType())).num("l", line(F->getLocation()));
      if (F->hasInClassInitializer() && F->getInClassInitializer()) fo.raw("init", expr(F->getInClassInitializer()));
      fs.push_back(fo.done());
    }
    for (auto &B : RD->bases()) bs.push_back(J::q(ty(B.getType())));
    o.raw("fields", arr(fs)).raw("bases", arr(bs));
    std::vector<std::string> ms;
    for (auto *M : RD->methods()) {
      if (isa<CXXConstructorDecl>(M)) continue;
      Obj mo;
      mo.str("f", fid(M)).str("n", qn(M)).flag("virt", M->isVirtual()).flag("pure", M->isPureVirtual()).flag("static", M->isStatic());
      std::vector<std::string> ov;
      for (auto *O : M->overridden_methods()) ov.push_back(J::q(fid(O)));
      if (!ov.empty()) mo.raw("over", arr(ov));
      ms.push_back(mo.done());
    }
    o.raw("methods", arr(ms));
    if (auto *D = RD->getDestructor()) {
      o.str("dtor", fid(D)).flag("dtorUser", D->isUserProvided());
    }
    o.flag("trivDtor", RD->hasTrivialDestructor());
    bool userCopy = false, userCopyAssign = false;
    for (auto *Ct : RD->ctors()) if (Ct->isCopyConstructor() && Ct->isUserProvided()) userCopy = true;
    for (auto *M : RD->methods()) if (M->isCopyAssignmentOperator() && M->isUserProvided()) userCopyAssign = true;
    o.flag("userCopy", userCopy).flag("userCopyAssign", userCopyAssign);
    records[name] = o.done();
  }
  std::string fieldName(const FieldDecl *F) {
    if (F->getDeclName().isEmpty()) return "@anon" + std::to_string(F->getFieldIndex());
    return F->getNameAsString();
  }

  // ---- expressions -------------------------------------------------------------------------
  Obj node(const char *k, const Stmt *S) {
    Obj o;
    o.str("k", k);
    if (S) o.num("l", line(S->getBeginLoc()));
    return o;
  }
  Obj enode(const char *k, const Expr *E) {
    Obj o = node(k, E);
    o.str("t", ty(E->getType())).flag("gl", E->isGLValue());
    o.num("x", ++gensym);
    return o;
  }

  std::string constInt(const Expr *E, const llvm::APSInt &V) {
    Obj o = enode("int", E);
    llvm::SmallString<40> b;
    V.toString(b, 10);
    o.raw("v", b.str().str());
    if (auto *R = dyn_cast<DeclRefExpr>(E->IgnoreParenImpCasts()))
      o.str("en", qn(R->getDecl()));
    return o.done();
  }

  std::string args(llvm::iterator_range<CallExpr::const_arg_iterator> r) {
    std::vector<std::string> v;
    for (auto *A : r) v.push_back(expr(A));
    return arr(v);
  }

  void declInfo(const FunctionDecl *F) {
    std::string f = fid(F);
    if (decls.count(f)) return;
    decls[f] = "{}";
    Obj o;
    o.str("n", qn(F)).str("ret", ty(F->getReturnType())).flag("variadic", F->isVariadic());
    bool nothrow = false;
    if (auto *FPT = F->getType()->getAs<FunctionProtoType>()) nothrow = isNT(FPT, F);
    o.flag("nothrow", nothrow || F->hasAttr<NoThrowAttr>());
    o.flag("noreturn", F->isNoReturn());
    o.flag("externC", F->isExternC());
    o.flag("own", inRoot(F->getLocation()));
    std::vector<std::string> ps;
    for (auto *P : F->parameters()) ps.push_back(J::q(ty(P->getType())));
    o.raw("params", arr(ps));
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o.flag("method", !M->isStatic()).flag("constm", M->isConst()).flag("virt", M->isVirtual());
      o.str("cls", ty(C.getRecordType(M->getParent())));
    }
    decls[f] = o.done();
  }

  void callee(Obj &o, const FunctionDecl *F) {
    declInfo(F);
    o.str("f", fid(F)).str("n", qn(F));
  }

  std::string expr(const Expr *E) {
    if (!E) return "null";
    if (E->isValueDependent() || E->isTypeDependent()) return node("dep", E).done();
    // look through wrappers
    if (auto *P = dyn_cast<ParenExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<ConstantExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<ExprWithCleanups>(E)) {
      Obj o = enode("full", E);
      o.raw("e", expr(P->getSubExpr()));
      return o.done();
    }
    if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) return expr(P->getExpr());
    if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) return expr(P->getExpr());
    if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(P->getReplacement());
    if (auto *P = dyn_cast<CXXRewrittenBinaryOperator>(E)) return expr(P->getSemanticForm());
    if (auto *P = dyn_cast<ArrayInitLoopExpr>(E)) { Obj o = enode("arrinit", E); return o.done(); }
    if (auto *P = dyn_cast<OpaqueValueExpr>(E)) return P->getSourceExpr() ? expr(P->getSourceExpr()) : enode("opaque", E).done();
    if (auto *P = dyn_cast<GenericSelectionExpr>(E)) return expr(P->getResultExpr());
    if (auto *P = dyn_cast<ChooseExpr>(E)) return expr(P->getChosenSubExpr());
    if (auto *U = dyn_cast<UnaryOperator>(E)) if (U->getOpcode() == UO_Extension) return expr(U->getSubExpr());

    // integer constants
    if (E->isPRValue() && (E->getType()->isIntegralOrEnumerationType())) {
      Expr::EvalResult R;
      if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) return constInt(E, R.Val.getInt());
    }
    if (auto *B = dyn_cast<CXXBindTemporaryExpr>(E)) {
      Obj o = enode("bt", E);
      o.raw("e", expr(B->getSubExpr()));
      return o.done();
    }
    if (auto *M = dyn_cast<MaterializeTemporaryExpr>(E)) {
      Obj o = enode("temp", E);
      o.raw("e", expr(M->getSubExpr()));
      if (M->getExtendingDecl()) o.num("ext", id(M->getExtendingDecl()));
      o.flag("static", M->getStorageDuration() == SD_Static);
      return o.done();
    }
    if (auto *L = dyn_cast<FloatingLiteral>(E)) {
      Obj o = enode("float", E);
      llvm::SmallString<40> b;
      L->getValue().toString(b);
      o.str("v", b.str());
      return o.done();
    }
    if (auto *L = dyn_cast<clang::StringLiteral>(E)) {
      Obj o = enode("str", E);
      if (L->getCharByteWidth() == 1) o.str("v", L->getString());
      else o.str("v", "<wide>");
      return o.done();
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return enode("null", E).done();
    if (auto *P = dyn_cast<PredefinedExpr>(E)) return expr(P->getFunctionName());
    if (isa<CXXThisExpr>(E)) return enode("this", E).done();
    if (auto *R = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = R->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        Obj o = enode("fn", E);
        callee(o, F);
        return o.done();
      }
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) return constInt(E, EC->getInitVal());
      Obj o = enode("var", E);
      o.num("id", id(D)).str("n", D->getNameAsString());
      if (auto *V = dyn_cast<VarDecl>(D)) {
        if (V->hasGlobalStorage()) { o.flag("g", true); o.str("gn", gname(V)); }
        o.flag("ref", V->getType()->isReferenceType());
        o.flag("cap", R->refersToEnclosingVariableOrCapture());
      }
      return o.done();
    }
    if (auto *M = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *D = M->getMemberDecl();
      if (auto *F = dyn_cast<FieldDecl>(D)) {
        Obj o = enode("mem", E);
        o.raw("b", expr(M->getBase())).str("f", fieldName(F)).flag("arrow", M->isArrow());
        o.str("cls", qn(F->getParent()));
        o.flag("ref", F->getType()->isReferenceType());
        return o.done();
      }
      if (auto *V = dyn_cast<VarDecl>(D)) {
        Obj o = enode("var", E);
        o.num("id", id(V)).str("n", V->getNameAsString()).flag("g", true).str("gn", gname(V));
        return o.done();
      }
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        Obj o = enode("fn", E);
        callee(o, F);
        return o.done();
      }
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) return constInt(E, EC->getInitVal());
    }
    if (auto *CE = dyn_cast<CastExpr>(E)) return castE(CE);
    if (auto *U = dyn_cast<UnaryOperator>(E)) {
      Obj o = enode("un", E);
      std::string op = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
      if (U->isPostfix()) op = "post" + op;
      else if (U->isIncrementDecrementOp()) op = "pre" + op;
      o.str("op", op).raw("e", expr(U->getSubExpr()));
      return o.done();
    }
    if (auto *B = dyn_cast<BinaryOperator>(E)) {
      Obj o = enode(B->isAssignmentOp() ? "assign" : "bin", E);
      o.str("op", B->getOpcodeStr());
      if (auto *CA = dyn_cast<CompoundAssignOperator>(B)) {
        o.str("ct", ty(CA->getComputationLHSType()));
      }
      o.raw("a", expr(B->getLHS())).raw("b", expr(B->getRHS()));
      return o.done();
    }
    if (auto *T = dyn_cast<ConditionalOperator>(E)) {
      Obj o = enode("cond", E);
      o.raw("c", expr(T->getCond())).raw("a", expr(T->getTrueExpr())).raw("b", expr(T->getFalseExpr()));
      return o.done();
    }
    if (auto *A = dyn_cast<ArraySubscriptExpr>(E)) {
      Obj o = enode("idx", E);
      o.raw("b", expr(A->getBase())).raw("i", expr(A->getIdx()));
      return o.done();
    }
    if (auto *K = dyn_cast<CXXOperatorCallExpr>(E)) {
      const FunctionDecl *F = K->getDirectCallee();
      if (!F) return enode("dep", E).done();
      Obj o = enode("call", E);
      callee(o, F);
      o.flag("oper", true);
      std::vector<std::string> v;
      unsigned i = 0;
      if (isa<CXXMethodDecl>(F) && !cast_method_static(F)) { o.raw("this", expr(K->getArg(0))); i = 1; }
      for (; i < K->getNumArgs(); ++i) v.push_back(expr(K->getArg(i)));
      o.raw("a", arr(v));
      return o.done();
    }
    if (auto *K = dyn_cast<CXXMemberCallExpr>(E)) {
      const CXXMethodDecl *F = K->getMethodDecl();
      if (!F) return enode("dep", E).done();
      Obj o = enode("call", E);
      callee(o, F);
      const Expr *ob = K->getImplicitObjectArgument();
      bool arrow = ob && ob->getType()->isPointerType();
      o.raw("this", ob ? expr(ob) : "null").flag("arrow", arrow);
      bool virt = F->isVirtual();
      if (auto *ME = dyn_cast<MemberExpr>(K->getCallee()->IgnoreParens())) if (ME->hasQualifier()) virt = false;
      o.flag("virt", virt);
      o.raw("a", args(K->arguments()));
      return o.done();
    }
    if (auto *K = dyn_cast<CallExpr>(E)) {
      if (const FunctionDecl *F = K->getDirectCallee()) {
        Obj o = enode("call", E);
        callee(o, F);
        o.raw("a", args(K->arguments()));
        return o.done();
      }
      Obj o = enode("icall", E);
      o.raw("c", expr(K->getCallee())).raw("a", args(K->arguments()));
      return o.done();
    }
    if (auto *K = dyn_cast<CXXConstructExpr>(E)) {
      const CXXConstructorDecl *F = K->getConstructor();
      Obj o = enode("ctor", E);
      callee(o, F);
      o.str("cls", qn(F->getParent()));
      o.flag("elid", K->isElidable());
      if (F->isCopyConstructor()) o.str("ck", "copy");
      else if (F->isMoveConstructor()) o.str("ck", "move");
      else if (F->isDefaultConstructor()) o.str("ck", "default");
      o.flag("user", F->isUserProvided());
      o.flag("zero", K->requiresZeroInitialization());
      o.flag("il", K->isStdInitListInitialization());
      o.raw("a", args(K->arguments()));
      return o.done();
    }
    if (auto *IL = dyn_cast<InitListExpr>(E)) {
      if (IL->isTransparent() || (!IL->isSemanticForm() && IL->getSemanticForm())) {
        if (!IL->isSemanticForm()) IL = IL->getSemanticForm();
        if (IL->isTransparent()) return expr(IL->getInit(0));
      }
      Obj o = enode("ilist", E);
      std::vector<std::string> v, n;
      for (auto *I : IL->inits()) v.push_back(expr(I));
      o.raw("a", arr(v));
      return o.done();
    }
    if (auto *SI = dyn_cast<CXXStdInitializerListExpr>(E)) {
      Obj o = enode("stdil", E);
      o.raw("e", expr(SI->getSubExpr()));
      return o.done();
    }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) return enode("zero", E).done();
    if (auto *N = dyn_cast<CXXNewExpr>(E)) {
      Obj o = enode("new", E);
      o.str("at", ty(N->getAllocatedType())).flag("arr", N->isArray());
      if (N->isArray() && N->getArraySize()) o.raw("n", expr(*N->getArraySize()));
      if (N->getInitializer()) o.raw("init", expr(N->getInitializer()));
      return o.done();
    }
    if (auto *D = dyn_cast<CXXDeleteExpr>(E)) {
      Obj o = enode("delete", E);
      o.raw("e", expr(D->getArgument())).flag("arr", D->isArrayForm()).str("dt", ty(D->getDestroyedType()));
      return o.done();
    }
    if (auto *T = dyn_cast<CXXThrowExpr>(E)) {
      Obj o = enode("throw", E);
      if (T->getSubExpr()) {
        o.raw("e", expr(T->getSubExpr()));
        o.str("tt", ty(T->getSubExpr()->getType()));
      }
      return o.done();
    }
    if (auto *L = dyn_cast<LambdaExpr>(E)) {
      Obj o = enode("lambda", E);
      auto *op = L->getCallOperator();
      if (!op->isDependentContext()) callee(o, op);
      std::vector<std::string> caps;
      auto ci = L->capture_init_begin();
      for (auto &cap : L->captures()) {
        Obj co;
        if (cap.capturesThis()) co.flag("this", true);
        else if (cap.capturesVariable()) {
          co.num("id", id(cap.getCapturedVar())).str("n", cap.getCapturedVar()->getNameAsString());
          co.flag("byref", cap.getCaptureKind() == LCK_ByRef);
          co.raw("init", expr(*ci));
        }
        ++ci;
        caps.push_back(co.done());
      }
      o.raw("caps", arr(caps));
      dumpFn(op);
      return o.done();
    }
    if (auto *V = dyn_cast<VAArgExpr>(E)) {
      Obj o = enode("vaarg", E);
      o.raw("e", expr(V->getSubExpr()));
      return o.done();
    }
    if (auto *T = dyn_cast<CXXTypeidExpr>(E)) return enode("typeid", E).done();
    Obj o = enode("unknown", E);
    o.str("cn", E->getStmtClassName());
    return o.done();
  }

  bool isNT(const FunctionProtoType *FPT, const FunctionDecl *F) {
    auto k = FPT->getExceptionSpecType();
    if (k == EST_Unevaluated || k == EST_Uninstantiated || k == EST_Unparsed) return isa<CXXDestructorDecl>(F);
    return FPT->isNothrow();
  }

  bool cast_method_static(const FunctionDecl *F) {
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) return M->isStatic();
    return false;
  }

  std::string gname(const VarDecl *V) {
    std::string n = qn(V);
    if (V->isStaticLocal()) {
      const DeclContext *DC = V->getDeclContext();
      while (DC && !isa<FunctionDecl>(DC)) DC = DC->getParent();
      if (DC) n = qn(llvm::cast<FunctionDecl>(DC)) + "::" + V->getNameAsString();
      n += "@" + file(V->getLocation());
    } else if (V->getFormalLinkage() != Linkage::External) n += "@" + file(V->getLocation());
    return n;
  }

  std::string castE(const CastExpr *E) {
    const Expr *S = E->getSubExpr();
    switch (E->getCastKind()) {
      case CK_LValueToRValue: {
        Obj o = enode("ld", E);
        o.raw("e", expr(S));
        return o.done();
      }
      case CK_NoOp:
      case CK_FunctionToPointerDecay:
      case CK_UserDefinedConversion:
      case CK_ConstructorConversion:
      case CK_BuiltinFnToFnPtr:
      case CK_Dependent:
      case CK_AtomicToNonAtomic:
      case CK_NonAtomicToAtomic:
        return expr(S);
      case CK_NullToPointer:
        return enode("null", E).done();
      case CK_ArrayToPointerDecay: {
        Obj o = enode("decay", E);
        o.raw("e", expr(S));
        return o.done();
      }
      default: break;
    }
    Obj o = enode("cast", E);
    o.str("ck", E->getCastKindName()).flag("ex", isa<ExplicitCastExpr>(E)).raw("e", expr(S)).str("ft", ty(S->getType()));
    return o.done();
  }

  // ---- statements --------------------------------------------------------------------------
  std::string varDecl(const VarDecl *V) {
    Obj o;
    o.num("id", id(V)).str("n", V->getNameAsString()).str("t", ty(V->getType())).num("l", line(V->getLocation()));
    o.flag("ref", V->getType()->isReferenceType()).flag("static", V->isStaticLocal());
    if (V->isStaticLocal()) o.flag("const", V->getASTContext().getBaseElementType(V->getType()).isConstQualified());
    if (V->hasGlobalStorage()) o.str("gn", gname(V));
    if (V->getInit()) o.raw("init", expr(V->getInit()));
    return o.done();
  }

  std::string stmt(const Stmt *S) {
    if (!S) return "null";
    if (auto *E = dyn_cast<Expr>(S)) {
      Obj o = node("expr", S);
      o.raw("e", expr(E));
      return o.done();
    }
    if (auto *B = dyn_cast<CompoundStmt>(S)) {
      Obj o = node("block", S);
      std::vector<std::string> v;
      for (auto *T : B->body()) v.push_back(stmt(T));
      o.raw("s", arr(v)).num("el", line(B->getRBracLoc()));
      return o.done();
    }
    if (auto *D = dyn_cast<DeclStmt>(S)) {
      Obj o = node("decl", S);
      std::vector<std::string> v;
      for (auto *X : D->decls()) if (auto *V = dyn_cast<VarDecl>(X)) v.push_back(varDecl(V));
      o.raw("vars", arr(v));
      return o.done();
    }
    if (auto *I = dyn_cast<IfStmt>(S)) {
      Obj o = node("if", S);
      if (I->getInit()) o.raw("init", stmt(I->getInit()));
      if (I->getConditionVariableDeclStmt()) o.raw("cv", stmt(I->getConditionVariableDeclStmt()));
      o.raw("c", expr(I->getCond())).raw("t", stmt(I->getThen())).raw("e", stmt(I->getElse()));
      return o.done();
    }
    if (auto *W = dyn_cast<WhileStmt>(S)) {
      Obj o = node("while", S);
      if (W->getConditionVariableDeclStmt()) o.raw("cv", stmt(W->getConditionVariableDeclStmt()));
      o.raw("c", expr(W->getCond())).raw("b", stmt(W->getBody()));
      return o.done();
    }
    if (auto *W = dyn_cast<DoStmt>(S)) {
      Obj o = node("do", S);
      o.raw("c", expr(W->getCond())).raw("b", stmt(W->getBody()));
      return o.done();
    }
    if (auto *F = dyn_cast<ForStmt>(S)) {
      Obj o = node("for", S);
      o.raw("i", stmt(F->getInit())).raw("c", expr(F->getCond())).raw("n", F->getInc() ? expr(F->getInc()) : "null").raw("b", stmt(F->getBody()));
      return o.done();
    }
    if (auto *F = dyn_cast<CXXForRangeStmt>(S)) {
      Obj o = node("rfor", S);
      o.raw("r", expr(F->getRangeInit())).raw("v", varDecl(F->getLoopVariable())).raw("b", stmt(F->getBody()));
      o.str("rt", ty(F->getRangeInit()->getType()));
      return o.done();
    }
    if (auto *W = dyn_cast<SwitchStmt>(S)) {
      Obj o = node("switch", S);
      if (W->getInit()) o.raw("init", stmt(W->getInit()));
      o.raw("c", expr(W->getCond())).raw("b", stmt(W->getBody()));
      return o.done();
    }
    if (auto *K = dyn_cast<CaseStmt>(S)) {
      Obj o = node("case", S);
      o.raw("v", expr(K->getLHS()));
      if (K->getRHS()) o.raw("v2", expr(K->getRHS()));
      o.raw("s", stmt(K->getSubStmt()));
      return o.done();
    }
    if (auto *K = dyn_cast<DefaultStmt>(S)) {
      Obj o = node("default", S);
      o.raw("s", stmt(K->getSubStmt()));
      return o.done();
    }
    if (isa<BreakStmt>(S)) return node("break", S).done();
    if (isa<ContinueStmt>(S)) return node("continue", S).done();
    if (isa<NullStmt>(S)) return node("nop", S).done();
    if (auto *R = dyn_cast<ReturnStmt>(S)) {
      Obj o = node("return", S);
      if (R->getRetValue()) o.raw("e", expr(R->getRetValue()));
      return o.done();
    }
    if (auto *T = dyn_cast<CXXTryStmt>(S)) {
      Obj o = node("try", S);
      o.raw("b", stmt(T->getTryBlock()));
      std::vector<std::string> hs;
      for (unsigned i = 0; i < T->getNumHandlers(); ++i) {
        auto *H = T->getHandler(i);
        Obj h = node("catch", H);
        if (H->getExceptionDecl()) {
          h.raw("v", varDecl(H->getExceptionDecl()));
          h.str("t", ty(H->getCaughtType().getNonReferenceType()));
        } else h.flag("all", true);
        h.raw("b", stmt(H->getHandlerBlock()));
        hs.push_back(h.done());
      }
      o.raw("h", arr(hs));
      return o.done();
    }
    if (auto *A = dyn_cast<AttributedStmt>(S)) return stmt(A->getSubStmt());
    if (auto *L = dyn_cast<LabelStmt>(S)) {
      Obj o = node("label", S);
      o.str("n", L->getDecl()->getName()).raw("s", stmt(L->getSubStmt()));
      return o.done();
    }
    if (auto *G = dyn_cast<GotoStmt>(S)) {
      Obj o = node("goto", S);
      o.str("n", G->getLabel()->getName());
      return o.done();
    }
    Obj o = node("unknownstmt", S);
    o.str("cn", S->getStmtClassName());
    return o.done();
  }

  // ---- declarations ------------------------------------------------------------------------
  void dumpFn(const FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody() && !F->isDefaulted()) {
      const FunctionDecl *D = nullptr;
      if (!F->hasBody(D)) return;
      F = D;
    }
    if (F->isDependentContext()) return;
    if (!inRoot(F->getLocation())) return;
    std::string f = fid(F);
    if (!seenFn.insert(f).second) return;
    if (F->isDeleted()) return;
    declInfo(F);
    Obj o;
    o.str("f", f).str("n", qn(F)).str("file", file(F->getLocation())).num("l", line(F->getLocation())).num("el", line(F->getEndLoc()));
    o.str("ret", ty(F->getReturnType()));
    o.flag("implicit", F->isImplicit() || F->isDefaulted());
    o.flag("internal", F->getFormalLinkage() != Linkage::External);
    o.flag("externC", F->isExternC());
    bool nothrow = false;
    if (auto *FPT = F->getType()->getAs<FunctionProtoType>()) nothrow = isNT(FPT, F);
    o.flag("nothrow", nothrow);
    std::vector<std::string> ps;
    for (auto *P : F->parameters()) {
      Obj po;
      po.num("id", id(P)).str("n", P->getNameAsString()).str("t", ty(P->getType())).flag("ref", P->getType()->isReferenceType());
      ps.push_back(po.done());
    }
    o.raw("params", arr(ps));
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o.flag("method", !M->isStatic());
      o.str("cls", ty(C.getRecordType(M->getParent())));
      o.flag("virt", M->isVirtual()).flag("constm", M->isConst());
      o.flag("dtor", isa<CXXDestructorDecl>(M));
      o.flag("lambda", M->getParent()->isLambda());
    }
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      o.flag("ctor", true);
      std::vector<std::string> is;
      for (auto *I : K->inits()) {
        Obj io;
        if (I->isAnyMemberInitializer()) io.str("f", fieldName(I->getAnyMember()));
        else if (I->isBaseInitializer()) io.str("base", ty(QualType(I->getBaseClass(), 0)));
        else if (I->isDelegatingInitializer()) io.flag("deleg", true);
        io.raw("e", expr(I->getInit()));
        io.flag("written", I->isWritten());
        is.push_back(io.done());
      }
      o.raw("inits", arr(is));
    }
    if (F->getBody()) o.raw("body", stmt(F->getBody()));
    fns.push_back(o.done());
  }

  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isThisDeclarationADefinition() || F->isDefaulted()) dumpFn(F);
    else if (inRoot(F->getLocation()) && !F->isDependentContext()) declInfo(F);
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (!V->hasGlobalStorage() || V->isStaticLocal() || isa<ParmVarDecl>(V)) return true;
    if (!inRoot(V->getLocation()) || V->getDeclContext()->isDependentContext()) return true;
    Obj o;
    o.str("gn", gname(V)).str("n", qn(V)).str("t", ty(V->getType())).str("file", file(V->getLocation())).num("l", line(V->getLocation()));
    o.flag("const", V->getASTContext().getBaseElementType(V->getType()).isConstQualified());
    if (V->getInit() && !V->getInit()->isValueDependent()) o.raw("init", expr(V->getInit()));
    globals.push_back(o.done());
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (R->isThisDeclarationADefinition() && !R->isDependentContext() && inRoot(R->getLocation()) && !R->isLambda())
      ty(C.getRecordType(R));
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!inRoot(E->getLocation()) || !E->isComplete()) return true;
    if (!seenEnum.insert(E->getCanonicalDecl()).second) return true;
    Obj o;
    o.str("n", qn(E)).str("t", ty(C.getEnumType(E))).str("file", file(E->getLocation()));
    std::vector<std::string> v;
    for (auto *K : E->enumerators()) {
      llvm::SmallString<40> b;
      K->getInitVal().toString(b, 10);
      Obj e;
      e.str("n", K->getNameAsString()).raw("v", b.str().str());
      v.push_back(e.done());
    }
    o.raw("vals", arr(v));
    enums.push_back(o.done());
    return true;
  }

  void out(llvm::raw_ostream &os, const std::string &main) {
    os << "{\"main\":" << J::q(main) << ",\n\"functions\":" << "[\n";
    for (size_t i = 0; i < fns.size(); ++i) os << (i ? ",\n" : "") << fns[i];
    os << "],\n\"globals\":" << arr(globals) << ",\n\"enums\":" << arr(enums) << ",\n\"types\":{";
    bool f = true;
    for (auto &p : types) { os << (f ? "" : ",\n") << J::q(p.first) << ":" << p.second; f = false; }
    os << "},\n\"records\":{";
    f = true;
    for (auto &p : records) { os << (f ? "" : ",\n") << J::q(p.first) << ":" << p.second; f = false; }
    os << "},\n\"decls\":{";
    f = true;
    for (auto &p : decls) { os << (f ? "" : ",\n") << J::q(p.first) << ":" << p.second; f = false; }
    os << "}}\n";
  }
};

class Consumer : public ASTConsumer {
  CompilerInstance &CI;
  std::string main;
public:
  Consumer(CompilerInstance &ci, std::string m) : CI(ci), main(std::move(m)) {}
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Dumper d(C);
    d.TraverseDecl(C.getTranslationUnitDecl());
    d.out(llvm::outs(), main);
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef f) override {
    return std::make_unique<Consumer>(CI, f.str());
  }
};

int main(int argc, const char **argv) {
  if (argc < 4) { llvm::errs() << "usage: gdast ROOT FILE -- flags\n"; return 2; }
  gRoot = argv[1];
  std::string file = argv[2];
  std::vector<std::string> flags;
  int i = 3;
  if (std::string(argv[i]) == "--") ++i;
  for (; i < argc; ++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {file});
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
