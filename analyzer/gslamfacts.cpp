// gslamfacts: parses one translation unit with clang and writes, as JSON, the
// resolved program of every function defined under --root: bodies with callees,
// fields, types and template instantiations resolved.  It takes no decision; the
// rules in /verif/rules read what it writes.
//
// It also forces the instantiation of every member function of every class
// template specialisation under --root, so members nobody calls are covered too.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Frontend/TextDiagnosticPrinter.h"
#include "clang/Sema/Scope.h"
#include "clang/Sema/Sema.h"
#include "clang/Sema/SemaConsumer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

static std::string Root, Root2, OutFile;

namespace {

class Exporter {
public:
  Exporter(ASTContext &C, Sema &S) : Ctx(C), SM(C.getSourceManager()), S(S),
    PP(C.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.Bool = true;
    PP.SuppressUnwrittenScope = true;
  }

  bool inRoot(SourceLocation L) const {
    if (L.isInvalid()) return false;
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L, false);
    if (P.isInvalid()) return false;
    llvm::StringRef F = P.getFilename();
    return F.starts_with(Root) || (!Root2.empty() && F.starts_with(Root2));
  }
  std::string file(SourceLocation L) const {
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L, false);
    if (P.isInvalid()) return "?";
    llvm::StringRef F(P.getFilename());
    if (F.starts_with(Root)) F = F.drop_front(Root.size());
    while (F.starts_with("/")) F = F.drop_front(1);
    return F.str();
  }
  int line(SourceLocation L) const {
    if (L.isInvalid()) return 0;
    return (int)SM.getExpansionLineNumber(L);
  }

  int type(QualType T) {
    if (T.isNull()) return -1;
    std::string s = T.getCanonicalType().getAsString(PP);
    auto it = TypeIds.find(s);
    if (it != TypeIds.end()) return it->second;
    int id = (int)Types.size();
    TypeIds[s] = id;
    Types.push_back(s);
    return id;
  }

  std::string qname(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    D->printQualifiedName(os, PP);
    return os.str();
  }
  // unique key of a function
  std::string fkey(const FunctionDecl *F) {
    std::string s;
    llvm::raw_string_ostream os(s);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      os << Ctx.getRecordType(M->getParent()).getCanonicalType().getAsString(PP)
         << "::" << F->getNameAsString();
    } else {
      F->printQualifiedName(os, PP);
    }
    if (auto *A = F->getTemplateSpecializationArgs()) {
      os << "<";
      for (unsigned i = 0; i < A->size(); ++i) {
        if (i) os << ",";
        A->get(i).print(PP, os, true);
      }
      os << ">";
    }
    os << "(";
    for (unsigned i = 0; i < F->getNumParams(); ++i) {
      if (i) os << ",";
      os << F->getParamDecl(i)->getType().getCanonicalType().getAsString(PP);
    }
    os << ")";
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isConst()) os << " const";
      if (M->getRefQualifier() == RQ_RValue) os << " &&";
    }
    if (F->isInvalidDecl()) os << "";
    return os.str();
  }

  int vid(const ValueDecl *V) {
    V = cast<ValueDecl>(V->getCanonicalDecl());
    auto it = VarIds.find(V);
    if (it != VarIds.end()) return it->second;
    int id = (int)VarIds.size();
    VarIds[V] = id;
    return id;
  }

  json::Value bad(const Stmt *St) {
    return json::Object{{"k", "unk"}, {"n", St ? St->getStmtClassName() : "null"},
                        {"L", St ? line(St->getBeginLoc()) : 0}};
  }

  bool constant(const Expr *E, json::Value &Out) {
    if (E->isValueDependent() || E->isTypeDependent()) return false;
    QualType T = E->getType();
    if (T.isNull()) return false;
    if (!(T->isIntegralOrEnumerationType() || T->isRealFloatingType())) return false;
    if (E->isGLValue()) return false;
    Expr::EvalResult R;
    if (!E->EvaluateAsRValue(R, Ctx) || R.HasSideEffects) return false;
    if (R.Val.isInt()) {
      llvm::SmallString<40> s;
      R.Val.getInt().toString(s, 10);
      if (T->isBooleanType())
        Out = json::Object{{"k", "bool"}, {"v", R.Val.getInt().getBoolValue()}};
      else
        Out = json::Object{{"k", "int"}, {"v", s.str().str()}, {"t", type(T)}};
      if (auto *O = Out.getAsObject())
        if (T->isEnumeralType()) {
          if (auto *DR = dyn_cast<DeclRefExpr>(E->IgnoreParenImpCasts()))
            (*O)["n"] = DR->getDecl()->getNameAsString();
        }
      return true;
    }
    if (R.Val.isFloat()) {
      llvm::SmallString<40> s;
      bool lose;
      llvm::APFloat f = R.Val.getFloat();
      f.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &lose);
      f.toString(s, 17);
      Out = json::Object{{"k", "float"}, {"v", s.str().str()}, {"t", type(T)}};
      return true;
    }
    return false;
  }

  json::Array exprs(llvm::iterator_range<CallExpr::const_arg_iterator> R) {
    json::Array A;
    for (const Expr *E : R) {
      A.push_back(expr(E));
    }
    return A;
  }

  void cval(const VarDecl *V, json::Object &O) {
    if (!V->isConstexpr() && !V->getType().isConstQualified()) return;
    const VarDecl *D = nullptr;
    const Expr *I = V->getAnyInitializer(D);
    if (!I || !D || I->isValueDependent()) return;
    QualType T = V->getType();
    if (!(T->isIntegralOrEnumerationType() || T->isRealFloatingType())) return;
    const APValue *A = const_cast<VarDecl *>(D)->evaluateValue();
    if (!A) return;
    if (A->isInt()) { llvm::SmallString<40> s; A->getInt().toString(s, 10); O["cval"] = s.str().str(); O["ci"] = true; }
    else if (A->isFloat()) {
      bool lose; llvm::APFloat f = A->getFloat();
      f.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &lose);
      llvm::SmallString<40> s; f.toString(s, 17); O["cval"] = s.str().str();
    }
  }

  json::Value callee(json::Object O, const FunctionDecl *F) {
    O["q"] = qname(F);
    O["f"] = fkey(F->getTemplateInstantiationPattern() && !F->isTemplateInstantiation() ? F : F);
    O["rt"] = type(F->getReturnType());
    if (inRoot(F->getLocation())) O["root"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = type(Ctx.getRecordType(M->getParent()));
      if (M->isConst()) O["cm"] = true;
      if (M->isStatic()) O["st"] = true;
      if (M->isVirtual()) O["virt"] = true;
      if (M->isDefaulted() || M->isImplicit()) O["dflt"] = true;
      if (M->isCopyAssignmentOperator()) O["ca"] = true;
      if (M->isMoveAssignmentOperator()) O["ma"] = true;
    }
    json::Array pt;
    for (auto *P : F->parameters()) {
      QualType T = P->getType();
      int k = 0;
      if (T->isRValueReferenceType()) k = 3;
      else if (T->isLValueReferenceType())
        k = T->getPointeeType().isConstQualified() ? 1 : 2;
      else if (T->isPointerType())
        k = T->getPointeeType().isConstQualified() ? 4 : 5;
      pt.push_back(k);
    }
    O["pm"] = std::move(pt); // parameter modes: 0 value 1 const& 2 & 3 && 4 const* 5 *
    if (!F->isImplicit()) wanted(F);
    return O;
  }

  json::Value expr(const Expr *E) {
    if (!E) return nullptr;
    json::Value K = nullptr;
    if (constant(E, K)) {
      if (auto *O = K.getAsObject()) (*O)["L"] = line(E->getBeginLoc());
      return K;
    }
    int L = line(E->getExprLoc());
    if (auto *X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<FullExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<OpaqueValueExpr>(E)) return expr(X->getSourceExpr());
    if (auto *X = dyn_cast<ConstantExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<CastExpr>(E)) {
      switch (X->getCastKind()) {
      case CK_LValueToRValue: {
        json::Value v = expr(X->getSubExpr());
        if (auto *O = v.getAsObject()) (*O)["rv"] = true;
        return v;
      }
      case CK_IntegralCast: case CK_FloatingCast: case CK_IntegralToFloating:
      case CK_FloatingToIntegral: case CK_IntegralToBoolean:
      case CK_FloatingToBoolean: case CK_BooleanToSignedIntegral:
      case CK_PointerToBoolean: {
        const char *n = "conv";
        return json::Object{{"k", n}, {"e", expr(X->getSubExpr())},
                            {"t", type(E->getType())},
                            {"from", type(X->getSubExpr()->getType())},
                            {"ck", X->getCastKindName()},
                            {"expl", isa<ExplicitCastExpr>(X)}, {"L", L}};
      }
      case CK_NullToPointer:
        return json::Object{{"k", "null"}, {"L", L}};
      case CK_DerivedToBase: case CK_UncheckedDerivedToBase: case CK_BaseToDerived:
      case CK_Dynamic:
        return json::Object{{"k", "pcast"}, {"e", expr(X->getSubExpr())},
                            {"t", type(E->getType())}, {"ck", X->getCastKindName()}, {"L", L}};
      default:
        return expr(X->getSubExpr());
      }
    }
    if (isa<CXXNullPtrLiteralExpr>(E)) return json::Object{{"k", "null"}, {"L", L}};
    if (isa<CXXThisExpr>(E)) return json::Object{{"k", "this"}, {"L", L}};
    if (auto *X = dyn_cast<StringLiteral>(E)) {
      std::string s = X->isOrdinary() ? X->getString().str() : "?";
      if (!json::isUTF8(s)) s = "?";
      return json::Object{{"k", "str"}, {"v", s}, {"L", L}};
    }
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D))
        return callee(json::Object{{"k", "fn"}, {"L", L}}, F);
      if (auto *V = dyn_cast<VarDecl>(D)) {
        json::Object O{{"k", "var"}, {"id", vid(V)}, {"n", V->getNameAsString()},
                       {"t", type(V->getType())}, {"L", L}};
        cval(V, O);
        if (!V->isLocalVarDeclOrParm()) { O["glob"] = qname(V); }
        else if (V->isStaticLocal()) O["sl"] = true;
        return O;
      }
      if (auto *B = dyn_cast<BindingDecl>(D))
        return json::Object{{"k", "var"}, {"id", vid(B)}, {"n", B->getNameAsString()},
                            {"t", type(B->getType())}, {"L", L}, {"binding", expr(B->getBinding())}};
      return json::Object{{"k", "var"}, {"id", vid(D)}, {"n", D->getNameAsString()},
                          {"t", type(D->getType())}, {"L", L}, {"glob", qname(D)}};
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *D = X->getMemberDecl();
      if (auto *F = dyn_cast<FieldDecl>(D)) {
        return json::Object{{"k", "mem"}, {"b", expr(X->getBase())}, {"arrow", X->isArrow()},
                            {"n", F->getNameAsString()}, {"t", type(F->getType())},
                            {"cls", type(Ctx.getRecordType(F->getParent()))}, {"L", line(X->getMemberLoc())}};
      }
      if (auto *V = dyn_cast<VarDecl>(D))
{
        json::Object O{{"k", "var"}, {"id", vid(V)}, {"n", V->getNameAsString()},
                            {"t", type(V->getType())}, {"glob", qname(V)}, {"L", L}};
        cval(V, O);
        return O;
      }
      if (auto *F = dyn_cast<FunctionDecl>(D))
        return callee(json::Object{{"k", "bound"}, {"b", expr(X->getBase())}, {"L", L}}, F);
      return bad(E);
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      json::Object O{{"k", "call"}, {"L", L}, {"op", getOperatorSpelling(X->getOperator())}};
      json::Array A = exprs(X->arguments());
      if (auto *F = X->getDirectCallee()) {
        if (auto *M = dyn_cast<CXXMethodDecl>(F); M && !M->isStatic() && !A.empty()) {
          O["obj"] = std::move(A[0]);
          json::Array B;
          for (size_t i = 1; i < A.size(); ++i) B.push_back(std::move(A[i]));
          A = std::move(B);
        }
        O["a"] = std::move(A);
        O["t"] = type(E->getType());
        return callee(std::move(O), F);
      }
      O["a"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      json::Object O{{"k", "call"}, {"L", L}};
      const Expr *Cal = X->getCallee()->IgnoreParens();
      if (auto *ME = dyn_cast<MemberExpr>(Cal)) {
        O["obj"] = expr(ME->getBase());
        if (ME->isArrow()) O["arrow"] = true;
        if (ME->hasQualifier()) O["qual"] = true;
      } else O["obj"] = expr(Cal);
      O["a"] = exprs(X->arguments());
      O["t"] = type(E->getType());
      if (auto *F = X->getDirectCallee()) return callee(std::move(O), F);
      return O;
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      json::Object O{{"k", "call"}, {"L", L}, {"a", exprs(X->arguments())},
                     {"t", type(E->getType())}};
      if (auto *F = X->getDirectCallee()) return callee(std::move(O), F);
      O["ce"] = expr(X->getCallee());
      return O;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      const CXXConstructorDecl *C = X->getConstructor();
      json::Array A;
      for (const Expr *e : X->arguments()) A.push_back(expr(e));
      json::Object O{{"k", "ctor"}, {"t", type(E->getType())}, {"a", std::move(A)}, {"L", L}};
      if (C->isCopyConstructor()) O["ck"] = "copy";
      else if (C->isMoveConstructor()) O["ck"] = "move";
      else if (C->isDefaultConstructor()) O["ck"] = "default";
      if (X->isListInitialization()) O["list"] = true;
      return callee(std::move(O), C);
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      json::Object O{{"k", "new"}, {"t", type(X->getAllocatedType())}, {"L", L}};
      if (X->getInitializer()) O["e"] = expr(X->getInitializer());
      else if (auto *CE = X->getConstructExpr()) O["e"] = expr(CE);
      if (X->isArray()) O["arr"] = true;
      return O;
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E))
      return json::Object{{"k", "del"}, {"e", expr(X->getArgument())}, {"L", L}};
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      if (X->isAssignmentOp())
        return json::Object{{"k", "asg"}, {"op", X->getOpcodeStr().str()}, {"l", expr(X->getLHS())},
                            {"r", expr(X->getRHS())}, {"t", type(X->getLHS()->getType())}, {"L", L}};
      return json::Object{{"k", "bin"}, {"op", X->getOpcodeStr().str()}, {"l", expr(X->getLHS())},
                          {"r", expr(X->getRHS())}, {"t", type(E->getType())},
                          {"ot", type(X->getLHS()->getType())}, {"L", L}};
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      std::string op = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->getOpcode() == UO_Extension) return expr(X->getSubExpr());
      return json::Object{{"k", "un"}, {"op", op}, {"post", X->isPostfix()},
                          {"e", expr(X->getSubExpr())}, {"t", type(E->getType())}, {"L", L}};
    }
    if (auto *X = dyn_cast<ConditionalOperator>(E))
      return json::Object{{"k", "cond"}, {"c", expr(X->getCond())}, {"x", expr(X->getTrueExpr())},
                          {"y", expr(X->getFalseExpr())}, {"L", L}};
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E))
      return json::Object{{"k", "idx"}, {"b", expr(X->getBase())}, {"i", expr(X->getIdx())},
                          {"t", type(E->getType())}, {"L", L}};
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      if (X->isSemanticForm() == false && X->getSemanticForm()) X = X->getSemanticForm();
      json::Array A;
      for (const Expr *e : X->inits()) A.push_back(expr(e));
      return json::Object{{"k", "init"}, {"t", type(E->getType())}, {"a", std::move(A)}, {"L", L}};
    }
    if (auto *X = dyn_cast<CXXScalarValueInitExpr>(E))
      return json::Object{{"k", "zero"}, {"t", type(E->getType())}, {"L", L}};
    if (isa<ImplicitValueInitExpr>(E))
      return json::Object{{"k", "zero"}, {"t", type(E->getType())}, {"L", L}};
    if (auto *X = dyn_cast<CXXThrowExpr>(E))
      return json::Object{{"k", "throw"}, {"e", expr(X->getSubExpr())}, {"L", L}};
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      json::Array caps, ps;
      for (auto &C : X->captures()) {
        json::Object c{{"ref", C.getCaptureKind() == LCK_ByRef}, {"this", C.capturesThis()}};
        if (C.capturesVariable()) {
          c["id"] = vid(C.getCapturedVar());
          c["n"] = C.getCapturedVar()->getNameAsString();
        }
        caps.push_back(std::move(c));
      }
      for (auto *P : X->getCallOperator()->parameters())
        ps.push_back(param(P));
      json::Object O{{"k", "lambda"}, {"caps", std::move(caps)}, {"ps", std::move(ps)}, {"L", L}};
      if (X->getCallOperator()->getDescribedFunctionTemplate()) {
        // generic lambda: take the first instantiation
        const CXXMethodDecl *M = nullptr;
        for (auto *Sp : X->getCallOperator()->getDescribedFunctionTemplate()->specializations())
          { M = cast<CXXMethodDecl>(Sp); break; }
        if (M && M->hasBody()) {
          json::Array ps2;
          for (auto *P : M->parameters()) ps2.push_back(param(P));
          O["ps"] = std::move(ps2);
          O["body"] = stmt(M->getBody());
        }
      } else
        O["body"] = stmt(X->getBody());
      return O;
    }
    if (isa<CXXNoexceptExpr>(E) || isa<UnaryExprOrTypeTraitExpr>(E))
      return json::Object{{"k", "opq"}, {"n", E->getStmtClassName()}, {"L", L}};
    // anything else: keep the children so that calls inside are seen
    json::Array A;
    for (const Stmt *C : E->children())
      if (auto *e = dyn_cast_or_null<Expr>(C)) A.push_back(expr(e));
    return json::Object{{"k", "unk"}, {"n", E->getStmtClassName()}, {"a", std::move(A)}, {"L", L}};
  }

  json::Object param(const ParmVarDecl *P) {
    return json::Object{{"id", vid(P)}, {"n", P->getNameAsString()}, {"t", type(P->getType())}};
  }

  json::Value varDecl(const VarDecl *V) {
    json::Object O{{"id", vid(V)}, {"n", V->getNameAsString()}, {"t", type(V->getType())},
                   {"L", line(V->getLocation())}};
    if (V->isStaticLocal()) O["sl"] = true;
    if (V->getInit()) O["e"] = expr(V->getInit());
    if (auto *D = dyn_cast<DecompositionDecl>(V)) {
      json::Array B;
      for (auto *b : D->bindings()) B.push_back(json::Object{{"id", vid(b)}, {"n", b->getNameAsString()}});
      O["bind"] = std::move(B);
    }
    return O;
  }

  json::Value stmt(const Stmt *St) {
    if (!St) return nullptr;
    int L = line(St->getBeginLoc());
    if (auto *X = dyn_cast<CompoundStmt>(St)) {
      json::Array A;
      for (const Stmt *C : X->body()) A.push_back(stmt(C));
      return json::Object{{"k", "{}"}, {"b", std::move(A)}, {"L", L}, {"E", line(X->getRBracLoc())}};
    }
    if (auto *X = dyn_cast<DeclStmt>(St)) {
      json::Array A;
      for (const Decl *D : X->decls())
        if (auto *V = dyn_cast<VarDecl>(D)) A.push_back(varDecl(V));
      return json::Object{{"k", "decl"}, {"d", std::move(A)}, {"L", L}};
    }
    if (auto *X = dyn_cast<IfStmt>(St)) {
      if (X->isConstexpr() && !X->getCond()->isValueDependent()) {
        auto B = X->getNondiscardedCase(Ctx);
        if (B) return *B ? stmt(*B) : json::Value(json::Object{{"k", "nop"}});
      }
      json::Object O{{"k", "if"}, {"c", expr(X->getCond())}, {"x", stmt(X->getThen())},
                     {"y", stmt(X->getElse())}, {"L", L}};
      if (X->getInit()) O["init"] = stmt(X->getInit());
      if (X->getConditionVariable()) O["cv"] = varDecl(X->getConditionVariable());
      return O;
    }
    if (auto *X = dyn_cast<ForStmt>(St))
      return json::Object{{"k", "for"}, {"i", stmt(X->getInit())},
                          {"c", X->getCond() ? expr(X->getCond()) : json::Value(nullptr)},
                          {"n", X->getInc() ? expr(X->getInc()) : json::Value(nullptr)},
                          {"b", stmt(X->getBody())}, {"L", L}};
    if (auto *X = dyn_cast<WhileStmt>(St)) {
      json::Object O{{"k", "while"}, {"c", expr(X->getCond())}, {"b", stmt(X->getBody())}, {"L", L}};
      if (X->getConditionVariable()) O["cv"] = varDecl(X->getConditionVariable());
      return O;
    }
    if (auto *X = dyn_cast<DoStmt>(St))
      return json::Object{{"k", "do"}, {"c", expr(X->getCond())}, {"b", stmt(X->getBody())}, {"L", L}};
    if (auto *X = dyn_cast<CXXForRangeStmt>(St))
      return json::Object{{"k", "range"}, {"v", varDecl(X->getLoopVariable())},
                          {"r", expr(X->getRangeInit())}, {"rt", type(X->getRangeInit()->getType())},
                          {"b", stmt(X->getBody())}, {"L", L}};
    if (auto *X = dyn_cast<ReturnStmt>(St))
      return json::Object{{"k", "ret"}, {"e", X->getRetValue() ? expr(X->getRetValue()) : json::Value(nullptr)}, {"L", L}};
    if (isa<BreakStmt>(St)) return json::Object{{"k", "break"}, {"L", L}};
    if (isa<ContinueStmt>(St)) return json::Object{{"k", "cont"}, {"L", L}};
    if (isa<NullStmt>(St)) return json::Object{{"k", "nop"}, {"L", L}};
    if (auto *X = dyn_cast<SwitchStmt>(St))
      return json::Object{{"k", "switch"}, {"c", expr(X->getCond())}, {"b", stmt(X->getBody())}, {"L", L}};
    if (auto *X = dyn_cast<CaseStmt>(St))
      return json::Object{{"k", "case"}, {"e", expr(X->getLHS())}, {"b", stmt(X->getSubStmt())}, {"L", L}};
    if (auto *X = dyn_cast<DefaultStmt>(St))
      return json::Object{{"k", "default"}, {"b", stmt(X->getSubStmt())}, {"L", L}};
    if (auto *X = dyn_cast<CXXTryStmt>(St)) {
      json::Array H;
      for (unsigned i = 0; i < X->getNumHandlers(); ++i) {
        auto *C = X->getHandler(i);
        json::Object h{{"b", stmt(C->getHandlerBlock())}, {"L", line(C->getBeginLoc())}};
        if (C->getExceptionDecl()) h["v"] = varDecl(C->getExceptionDecl());
        H.push_back(std::move(h));
      }
      return json::Object{{"k", "try"}, {"b", stmt(X->getTryBlock())}, {"h", std::move(H)}, {"L", L}};
    }
    if (auto *X = dyn_cast<OMPExecutableDirective>(St)) {
      json::Array cl;
      for (const OMPClause *C : X->clauses()) {
        json::Array vs;
        auto names = [&](auto *P) {
          for (const Expr *e : P->varlists())
            if (auto *DR = dyn_cast<DeclRefExpr>(e->IgnoreParenImpCasts()))
              vs.push_back(json::Object{{"id", vid(DR->getDecl())}, {"n", DR->getDecl()->getNameAsString()}});
        };
        if (auto *P = dyn_cast<OMPPrivateClause>(C)) names(P);
        else if (auto *P = dyn_cast<OMPFirstprivateClause>(C)) names(P);
        else if (auto *P = dyn_cast<OMPLastprivateClause>(C)) names(P);
        else if (auto *P = dyn_cast<OMPReductionClause>(C)) names(P);
        else if (auto *P = dyn_cast<OMPSharedClause>(C)) names(P);
        cl.push_back(json::Object{{"n", llvm::omp::getOpenMPClauseName(C->getClauseKind()).str()},
                                  {"v", std::move(vs)}});
      }
      json::Value B = nullptr;
      if (X->hasAssociatedStmt()) {
        const Stmt *A = X->getAssociatedStmt();
        while (auto *CS = dyn_cast<CapturedStmt>(A)) A = CS->getCapturedStmt();
        B = stmt(A);
      }
      return json::Object{{"k", "omp"}, {"d", llvm::omp::getOpenMPDirectiveName(X->getDirectiveKind()).str()},
                          {"cl", std::move(cl)}, {"b", std::move(B)}, {"L", L}};
    }
    if (auto *X = dyn_cast<CapturedStmt>(St)) return stmt(X->getCapturedStmt());
    if (auto *X = dyn_cast<AttributedStmt>(St)) return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<LabelStmt>(St)) return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<Expr>(St)) return json::Object{{"k", "expr"}, {"e", expr(X)}, {"L", L}};
    return json::Object{{"k", "unk"}, {"n", St->getStmtClassName()}, {"L", L}};
  }

  void wanted(const FunctionDecl *F) {
    const FunctionDecl *D = nullptr;
    if (!F->hasBody(D)) return;
    if (!inRoot(D->getLocation())) return;
    Queue.push_back(D);
  }

  void function(const FunctionDecl *F) {
    const FunctionDecl *D = nullptr;
    bool has = F->hasBody(D);
    if (!has) {
      if (auto *C = dyn_cast<CXXMethodDecl>(F); C && C->isDefaulted()) D = F; else return;
    }
    if (D->isDependentContext()) return;
    if (!inRoot(D->getLocation())) return;
    if (!Done.insert(D->getCanonicalDecl()).second) return;
    json::Object O;
    O["f"] = fkey(D);
    O["q"] = qname(D);
    O["n"] = D->getNameAsString();
    O["file"] = file(D->getLocation());
    O["L"] = line(D->getLocation());
    O["rt"] = type(D->getReturnType());
    O["inl"] = D->isInlined();
    O["tmpl"] = D->isTemplateInstantiation();
    O["implicit"] = D->isImplicit();
    if (D->isInvalidDecl()) O["invalid"] = true;
    if (D->getTemplateSpecializationKind() == TSK_ExplicitSpecialization) O["espec"] = true;
    O["storage_static"] = D->getStorageClass() == SC_Static && !isa<CXXMethodDecl>(D);
    O["anon"] = D->isInAnonymousNamespace();
    O["noret"] = D->isNoReturn();
    if (auto *M = dyn_cast<CXXMethodDecl>(D)) {
      O["cls"] = type(Ctx.getRecordType(M->getParent()));
      O["const"] = M->isConst();
      O["virt"] = M->isVirtual();
      O["static"] = M->isStatic();
      O["access"] = (int)M->getAccess();
      O["dflt"] = M->isDefaulted();
      if (isa<CXXDestructorDecl>(M)) O["dtor"] = true;
      if (M->isCopyAssignmentOperator()) O["ca"] = true;
      if (M->isMoveAssignmentOperator()) O["ma"] = true;
      json::Array ov;
      for (auto *B : M->overridden_methods()) ov.push_back(qname(B));
      O["overrides"] = std::move(ov);
    }
    json::Array ps;
    for (auto *P : D->parameters()) ps.push_back(param(P));
    O["ps"] = std::move(ps);
    if (auto *C = dyn_cast<CXXConstructorDecl>(D)) {
      O["ctor"] = true;
      if (C->isCopyConstructor()) O["copy"] = true;
      if (C->isMoveConstructor()) O["move"] = true;
      json::Array in;
      for (auto *I : C->inits()) {
        json::Object i{{"L", line(I->getSourceLocation())}, {"w", I->isWritten()}};
        if (I->isAnyMemberInitializer()) i["m"] = I->getAnyMember()->getNameAsString();
        else if (I->isBaseInitializer()) i["base"] = type(QualType(I->getBaseClass(), 0));
        else if (I->isDelegatingInitializer()) i["deleg"] = true;
        if (I->getInit()) i["e"] = expr(I->getInit());
        in.push_back(std::move(i));
      }
      O["inits"] = std::move(in);
    }
    if (D->getBody()) O["b"] = stmt(D->getBody());
    Funcs.push_back(std::move(O));
  }

  void record(const CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return;
    if (!inRoot(R->getLocation())) return;
    if (!DoneRec.insert(R->getCanonicalDecl()).second) return;
    json::Object O;
    O["t"] = type(Ctx.getRecordType(R));
    O["q"] = qname(R);
    O["file"] = file(R->getLocation());
    O["L"] = line(R->getLocation());
    json::Array fs, bs, ms;
    for (auto *F : R->fields()) {
      json::Object f{{"n", F->getNameAsString()}, {"t", type(F->getType())}, {"L", line(F->getLocation())},
                     {"access", (int)F->getAccess()}};
      QualType T = F->getType();
      f["scalar"] = T->isScalarType() || T->isEnumeralType();
      f["ref"] = T->isReferenceType();
      f["const"] = T.isConstQualified();
      if (F->hasInClassInitializer()) {
        f["init"] = true;
      }
      fs.push_back(std::move(f));
    }
    for (auto &B : R->bases())
      bs.push_back(type(B.getType()));
    for (auto *M : R->methods()) {
      json::Object m{{"n", M->getNameAsString()}, {"q", qname(M)}, {"f", fkey(M)}, {"virt", M->isVirtual()},
                     {"pure", M->isPureVirtual()}, {"const", M->isConst()}, {"static", M->isStatic()},
                     {"access", (int)M->getAccess()}, {"implicit", M->isImplicit()}, {"deleted", M->isDeleted()},
                     {"dflt", M->isDefaulted()}, {"L", line(M->getLocation())}};
      const FunctionDecl *D = nullptr;
      m["body"] = M->hasBody(D);
      if (isa<CXXConstructorDecl>(M)) m["ctor"] = true;
      if (isa<CXXDestructorDecl>(M)) m["dtor"] = true;
      if (M->isCopyAssignmentOperator()) m["ca"] = true;
      if (M->isMoveAssignmentOperator()) m["ma"] = true;
      if (auto *C = dyn_cast<CXXConstructorDecl>(M)) {
        if (C->isCopyConstructor()) m["copy"] = true;
        if (C->isMoveConstructor()) m["move"] = true;
        if (C->isDefaultConstructor()) m["defctor"] = true;
      }
      ms.push_back(std::move(m));
      for (auto *OM : M->overridden_methods()) (void)OM;
    }
    O["fields"] = std::move(fs);
    O["bases"] = std::move(bs);
    O["methods"] = std::move(ms);
    Recs.push_back(std::move(O));
  }

  // ------------------------------------------------------------------
  struct Finder : RecursiveASTVisitor<Finder> {
    Exporter &X;
    Finder(Exporter &X) : X(X) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl *F) {
      if (F->isDependentContext()) return true;
      X.Found.push_back(F);
      return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *R) {
      if (R->isDependentContext()) return true;
      X.FoundRec.push_back(R);
      return true;
    }
    bool VisitFunctionTemplateDecl(FunctionTemplateDecl *T) { return true; }
  };

  // what the headers declare, templates included, as written (no instantiations)
  struct Declared : RecursiveASTVisitor<Declared> {
    Exporter &X;
    Declared(Exporter &X) : X(X) {}
    bool shouldVisitTemplateInstantiations() const { return false; }
    bool VisitFunctionDecl(FunctionDecl *F) {
      if (!X.inRoot(F->getLocation()) || F->isImplicit() || F->isDeleted() || F->isDefaulted()) return true;
      if (F->isDefined() || F->isPureVirtual()) return true;
      if (F->getCanonicalDecl() != F || F->isLocalExternDecl()) return true;
      bool dep = F->isDependentContext();
      std::string ps;
      for (auto *P : F->parameters()) ps += P->getType().getAsString(X.PP) + ",";
      X.NoDef.push_back(json::Object{{"f", dep ? std::string() : X.fkey(F)}, {"q", X.qname(F)}, {"ps", ps}, {"dep", dep},
                                     {"n", F->getNameAsString()}, {"file", X.file(F->getLocation())}, {"L", X.line(F->getLocation())}});
      return true;
    }
    bool VisitVarDecl(VarDecl *V) {
      if (!X.inRoot(V->getLocation()) || V->isLocalVarDecl() || isa<ParmVarDecl>(V)) return true;
      if (V->getDeclContext()->isDependentContext() || V->getDescribedVarTemplate()) return true;
      if (V->isThisDeclarationADefinition() != VarDecl::Definition) return true;
      json::Array Lits;
      struct Lit : RecursiveASTVisitor<Lit> {
        json::Array &A;
        explicit Lit(json::Array &A) : A(A) {}
        bool VisitStringLiteral(StringLiteral *S) { if (S->getCharByteWidth() == 1) A.push_back(S->getString().str()); return true; }
      };
      if (V->getInit()) Lit(Lits).TraverseStmt(V->getInit());
      X.Vars.push_back(json::Object{{"t", X.type(V->getType())}, {"lits", std::move(Lits)},
                                    {"q", V->getQualifiedNameAsString()}, {"n", V->getNameAsString()}, {"file", X.file(V->getLocation())},
                                    {"L", X.line(V->getLocation())}, {"inl", V->isInline()}, {"ext", V->isExternallyVisible()}});
      return true;
    }
  };

  void run() {
    Declared(*this).TraverseDecl(Ctx.getTranslationUnitDecl());
    // force the instantiation of every member of the specialisations under root
    for (int round = 0; round < 6; ++round) {
      Found.clear(); FoundRec.clear();
      Finder(*this).TraverseDecl(Ctx.getTranslationUnitDecl());
      unsigned n = 0;
      for (auto *R : FoundRec) {
        if (!inRoot(R->getLocation())) continue;
        if (!isa<ClassTemplateSpecializationDecl>(R) && !R->getInstantiatedFromMemberClass()) continue;
        if (!R->hasDefinition()) continue;
        std::vector<CXXMethodDecl *> Ms;
        for (auto *M : R->methods()) Ms.push_back(M);
        for (auto *M : Ms) {
          if (M->isDeleted() || M->isPureVirtual() || M->isImplicit()) continue;
          if (!Forced.insert(M).second) continue;
          const FunctionDecl *D = nullptr;
          if (M->hasBody(D)) continue;
          if (M->isDefaulted()) continue;
          if (!M->getTemplateInstantiationPattern()) continue;
          unsigned before = S.getDiagnostics().getClient()->getNumErrors();
          S.InstantiateFunctionDefinition(R->getLocation(), M, true, true, false);
          S.PerformPendingInstantiations();
          unsigned after = S.getDiagnostics().getClient()->getNumErrors();
          if (after != before || M->isInvalidDecl())
            Uninst.push_back(json::Object{{"f", fkey(M)}, {"q", qname(M)}});
          ++n;
        }
      }
      if (!n) break;
    }
    Found.clear(); FoundRec.clear();
    Finder(*this).TraverseDecl(Ctx.getTranslationUnitDecl());
    for (auto *R : FoundRec) record(R);
    for (auto *F : Found) function(F);
    while (!Queue.empty()) { auto *F = Queue.back(); Queue.pop_back(); function(F); }
  }

  void write(llvm::raw_ostream &os, json::Array diags) {
    json::Array ts;
    for (auto &t : Types) ts.push_back(json::isUTF8(t) ? t : std::string("?"));
    json::Object O{{"types", std::move(ts)}, {"funcs", std::move(Funcs)}, {"recs", std::move(Recs)},
                   {"uninst", std::move(Uninst)}, {"nodef", std::move(NoDef)}, {"vars", std::move(Vars)}, {"diags", std::move(diags)}};
    os << json::Value(std::move(O));
  }

  std::vector<FunctionDecl *> Found;
  std::vector<CXXRecordDecl *> FoundRec;
private:
  ASTContext &Ctx;
  SourceManager &SM;
  Sema &S;
  PrintingPolicy PP;
  std::map<std::string, int> TypeIds;
  std::vector<std::string> Types;
  std::map<const ValueDecl *, int> VarIds;
  std::set<const FunctionDecl *> Done;
  std::set<const CXXRecordDecl *> DoneRec;
  std::set<const CXXMethodDecl *> Forced;
  std::vector<const FunctionDecl *> Queue;
  json::Array Funcs, Recs, Uninst, NoDef, Vars;
};

struct Diags : DiagnosticConsumer {
  json::Array Out;
  void HandleDiagnostic(DiagnosticsEngine::Level L, const Diagnostic &I) override {
    DiagnosticConsumer::HandleDiagnostic(L, I);
    if (L < DiagnosticsEngine::Warning) return;
    llvm::SmallString<200> s;
    I.FormatDiagnostic(s);
    std::string f; int ln = 0;
    if (I.hasSourceManager() && I.getLocation().isValid()) {
      auto P = I.getSourceManager().getPresumedLoc(I.getSourceManager().getExpansionLoc(I.getLocation()), false);
      if (P.isValid()) { f = P.getFilename(); ln = P.getLine(); }
    }
    std::string opt = DiagnosticIDs::getWarningOptionForDiag(I.getID()).str();
    std::string msg = s.str().str();
    if (!json::isUTF8(msg)) msg = "?";
    Out.push_back(json::Object{{"level", (int)L}, {"msg", msg}, {"file", f}, {"L", ln}, {"opt", opt}});
  }
};

static Diags *TheDiags;

class Consumer : public SemaConsumer {
  Sema *S = nullptr;
public:
  void InitializeSema(Sema &s) override { S = &s; }
  void ForgetSema() override { }
  void HandleTranslationUnit(ASTContext &C) override {
    // the parser's translation-unit scope is gone by now; instantiation may need one
    Scope TU(nullptr, Scope::DeclScope, S->getDiagnostics());
    TU.setEntity(C.getTranslationUnitDecl());
    Scope *Old = S->TUScope;
    if (!Old) S->TUScope = &TU;
    Exporter X(C, *S);
    X.run();
    S->TUScope = Old;
    std::error_code EC;
    llvm::raw_fd_ostream os(OutFile, EC);
    if (EC) { llvm::errs() << EC.message() << "\n"; exit(3); }
    X.write(os, std::move(TheDiags->Out));
  }
};

class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef) override {
    CI.getDiagnostics().setErrorLimit(0);
    return std::make_unique<Consumer>();
  }
};

} // namespace

// gslamfacts OUT ROOT SOURCE -- flags...
int main(int argc, const char **argv) {
  if (argc < 5) { llvm::errs() << "usage: gslamfacts OUT ROOT SOURCE -- FLAGS\n"; return 3; }
  OutFile = argv[1];
  Root = argv[2];
  // "package:other": functions of the other directory are exported too
  if (auto K = Root.find(':'); K != std::string::npos) { Root2 = Root.substr(K + 1); Root.resize(K); }
  std::string Src = argv[3];
  std::vector<std::string> Flags(argv + 5, argv + argc);
  tooling::FixedCompilationDatabase DB(".", Flags);
  tooling::ClangTool T(DB, {Src});
  Diags D;
  TheDiags = &D;
  T.setDiagnosticConsumer(&D);
  struct F : tooling::FrontendActionFactory {
    std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
  } Fac;
  T.run(&Fac);
  return 0;
}
