// Fact extractor: parses one translation unit with clang and writes, as JSON,
// the resolved program (functions with their control-flow graphs, events in
// evaluation order, records, enums, globals).  It decides nothing by itself;
// the rules in /verif/rules work on its output.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/ParentMap.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
namespace J = llvm::json;

static std::string Root;   // only entities below this directory are reported

namespace {

struct Extractor : public RecursiveASTVisitor<Extractor> {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  J::Array Functions, Records, Enums, Globals, Defines;
  std::set<const Decl *> Seen;
  std::map<const Decl *, int> LocalIds;
  std::map<const Stmt *, int> CallIds;
  int cid(const Stmt *S) {
    auto It = CallIds.find(S);
    if (It != CallIds.end()) return It->second;
    int N = CallIds.size() + 1;
    CallIds[S] = N;
    return N;
  }
  ParentMap *PM = nullptr;

  Extractor(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.Bool = true;
    PP.SuppressUnwrittenScope = true;
  }

  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool shouldVisitLambdaBody() const { return true; }

  // ---- helpers -------------------------------------------------------
  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(L);
    if (P.isInvalid()) return "";
    return P.getFilename();
  }
  unsigned line(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(L);
    return P.isInvalid() ? 0 : P.getLine();
  }
  std::string rel(const std::string &F) {
    if (F.rfind(Root, 0) == 0) return F.substr(Root.size());
    return F;
  }
  bool inRoot(SourceLocation L) {
    std::string F = file(L);
    if (F.empty()) return false;
    if (F[0] != '/') return true;
    return F.rfind(Root, 0) == 0;
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string qname(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    D->printQualifiedName(OS, PP);
    OS.flush();
    if (S.rfind("tt::", 0) == 0) S = S.substr(4);
    return S;
  }
  std::string className(const CXXRecordDecl *R) {
    if (!R) return "";
    if (R->isLambda()) return "lambda";
    std::string S = ty(C.getRecordType(R));
    if (S.rfind("tt::", 0) == 0) S = S.substr(4);
    return S;
  }
  std::string fid(const FunctionDecl *F) {
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda()) {
        SourceLocation L = M->getParent()->getBeginLoc();
        return "lambda@" + rel(file(L)) + ":" + std::to_string(line(L)) + ":" +
               std::to_string(SM.getExpansionColumnNumber(L));
      }
    std::string S;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      S = className(M->getParent()) + "::";
      if (isa<CXXConstructorDecl>(M)) S += "<ctor>";
      else if (isa<CXXDestructorDecl>(M)) S += "<dtor>";
      else S += M->getNameAsString();
    } else
      S = qname(F);
    if (F->getStorageClass() == SC_Static && !isa<CXXMethodDecl>(F) && inRoot(F->getLocation()))
      S = "static:" + rel(file(F->getLocation())) + ":" + S;
    S += "(";
    bool First = true;
    for (auto *P : F->parameters()) {
      if (!First) S += ",";
      First = false;
      S += ty(P->getType());
    }
    if (F->isVariadic()) S += First ? "..." : ",...";
    S += ")";
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->isConst()) S += "const";
    return S;
  }
  int lid(const Decl *D) {
    auto It = LocalIds.find(D);
    if (It != LocalIds.end()) return It->second;
    int N = LocalIds.size() + 1;
    LocalIds[D] = N;
    return N;
  }

  // ---- expressions ----------------------------------------------------
  const Expr *strip(const Expr *E) {
    while (E) {
      if (auto *P = dyn_cast<ParenExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *I = dyn_cast<ImplicitCastExpr>(E)) { E = I->getSubExpr(); continue; }
      if (auto *X = dyn_cast<ExprWithCleanups>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<ConstantExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = X->getReplacement(); continue; }
      if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) { E = X->getExpr(); continue; }
      if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) { E = X->getExpr(); continue; }
      if (auto *X = dyn_cast<CallExpr>(E)) {
        if (auto *F = X->getDirectCallee())
          if (F->getIdentifier() && F->getName() == "__builtin_expect" && X->getNumArgs() == 2) {
            E = X->getArg(0);
            continue;
          }
        if (auto *F = X->getDirectCallee())
          if (F->getIdentifier() && (F->getName() == "move" || F->getName() == "forward") &&
              F->isInStdNamespace() && X->getNumArgs() == 1) {
            E = X->getArg(0);
            continue;
          }
      }
      if (auto *K = dyn_cast<CXXConstructExpr>(E)) {
        // copy / move construction is transparent
        if (K->getNumArgs() == 1 && K->getConstructor()->isCopyOrMoveConstructor()) {
          E = K->getArg(0);
          continue;
        }
      }
      break;
    }
    return E;
  }

  J::Value args(llvm::iterator_range<CallExpr::const_arg_iterator> R) {
    J::Array A;
    for (const Expr *E : R) A.push_back(expr(E));
    return A;
  }

  J::Value expr(const Expr *E0) {
    const Expr *E = strip(E0);
    if (!E) return J::Array{"o", "null"};

    if (E->isValueDependent() || E->isTypeDependent()) return J::Array{"o", "dependent"};

    // constants
    if (auto *D = dyn_cast<DeclRefExpr>(E))
      if (auto *EC = dyn_cast<EnumConstantDecl>(D->getDecl())) {
        return J::Array{"i", EC->getInitVal().getExtValue(), qname(EC)};
      }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return J::Array{"n"};
    if (auto *B = dyn_cast<CXXBoolLiteralExpr>(E)) return J::Array{"i", (int)B->getValue(), "bool"};
    if (auto *S = dyn_cast<StringLiteral>(E)) {
      if (S->getCharByteWidth() == 1) {
        std::string T = S->getString().str();
        if (!J::isUTF8(T)) T = J::fixUTF8(T);
        return J::Array{"s", T};
      }
      return J::Array{"s", "<wide>"};
    }
    if (auto *F = dyn_cast<FloatingLiteral>(E)) {
      llvm::SmallString<32> T;
      F->getValue().toString(T);
      return J::Array{"f", T.str().str()};
    }
    if (E->getType()->isIntegralOrEnumerationType() && E->isPRValue() && !isa<CallExpr>(E)) {
      Expr::EvalResult R;
      if (E->EvaluateAsInt(R, C) && !R.HasSideEffects) {
        llvm::APSInt V = R.Val.getInt();
        if (V.isUnsigned() && V.getActiveBits() > 63)
          return J::Array{"i", (int64_t)V.getZExtValue(), "u64"};
        return J::Array{"i", V.getExtValue()};
      }
    }
    if (auto *CL = dyn_cast<CharacterLiteral>(E)) return J::Array{"i", (int64_t)CL->getValue(), "char"};

    if (isa<CXXThisExpr>(E)) return J::Array{"t"};
    if (auto *D = dyn_cast<DeclRefExpr>(E)) return declref(D);
    if (auto *M = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *VD = M->getMemberDecl();
      if (auto *V = dyn_cast<VarDecl>(VD))
        return J::Array{"v", qname(V), 0, "g", ty(V->getType())};
      if (auto *FD = dyn_cast<FieldDecl>(VD)) {
        std::string N = className(dyn_cast<CXXRecordDecl>(FD->getParent()));
        if (N.empty()) N = FD->getParent()->getNameAsString();
        return J::Array{"m", expr(M->getBase()), N + "::" + FD->getNameAsString(), ty(FD->getType())};
      }
      if (auto *MD = dyn_cast<CXXMethodDecl>(VD)) return J::Array{"fn", fid(MD)};
      return J::Array{"o", "member"};
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      const CXXMethodDecl *MD = X->getMethodDecl();
      if (!MD) return J::Array{"ci", expr(X->getCallee()), args(X->arguments()), cid(X)};
      bool Virt = MD->isVirtual();
      if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParenImpCasts()))
        if (ME->hasQualifier()) Virt = false;
      return J::Array{"c", fid(MD), expr(X->getImplicitObjectArgument()), args(X->arguments()), Virt ? 1 : 0, cid(X)};
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      const FunctionDecl *FD = X->getDirectCallee();
      if (!FD) return J::Array{"ci", expr(X->getCallee()), args(X->arguments()), cid(X)};
      if (isa<CXXMethodDecl>(FD) && !cast<CXXMethodDecl>(FD)->isStatic()) {
        J::Array A;
        for (unsigned I = 1; I < X->getNumArgs(); I++) A.push_back(expr(X->getArg(I)));
        return J::Array{"c", fid(FD), expr(X->getArg(0)), std::move(A), 0, cid(X)};
      }
      return J::Array{"c", fid(FD), nullptr, args(X->arguments()), 0, cid(X)};
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      const FunctionDecl *FD = X->getDirectCallee();
      if (!FD) return J::Array{"ci", expr(X->getCallee()), args(X->arguments()), cid(X)};
      return J::Array{"c", fid(FD), nullptr, args(X->arguments()), 0, cid(X)};
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      J::Array A;
      for (const Expr *S : X->arguments()) A.push_back(expr(S));
      return J::Array{"k", className(X->getConstructor()->getParent()), fid(X->getConstructor()), std::move(A), cid(X)};
    }
    if (auto *X = dyn_cast<BinaryOperator>(E))
      return J::Array{"b", X->getOpcodeStr().str(), expr(X->getLHS()), expr(X->getRHS())};
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      std::string Op = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) Op = "p" + Op;
      return J::Array{"u", Op, expr(X->getSubExpr())};
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E))
      return J::Array{"x", expr(X->getBase()), expr(X->getIdx())};
    if (auto *X = dyn_cast<ConditionalOperator>(E))
      return J::Array{"?", expr(X->getCond()), expr(X->getTrueExpr()), expr(X->getFalseExpr())};
    if (auto *X = dyn_cast<ExplicitCastExpr>(E))
      return J::Array{"cast", ty(X->getType()), expr(X->getSubExpr())};
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      J::Value Init = nullptr;
      if (X->getInitializer()) Init = expr(X->getInitializer());
      J::Value Sz = nullptr;
      if (X->isArray() && X->getArraySize() && *X->getArraySize()) Sz = expr(*X->getArraySize());
      J::Array Pl;
      for (unsigned I = 0; I < X->getNumPlacementArgs(); I++) Pl.push_back(expr(X->getPlacementArg(I)));
      return J::Array{"new", tyName(X->getAllocatedType()), std::move(Init), std::move(Sz), std::move(Pl), cid(X)};
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E))
      return J::Array{"del", expr(X->getArgument()), tyName(X->getDestroyedType())};
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      J::Array Caps;
      auto CI = X->capture_init_begin();
      for (auto &Cap : X->captures()) {
        if (Cap.capturesVariable()) Caps.push_back(Cap.getCapturedVar()->getNameAsString());
        else if (Cap.capturesThis()) Caps.push_back("this");
        ++CI;
      }
      return J::Array{"lam", fid(X->getCallOperator()), std::move(Caps)};
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      J::Array A;
      for (const Expr *S : X->inits()) A.push_back(expr(S));
      return J::Array{"il", std::move(A)};
    }
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      if (X->getSubExpr()) return J::Array{"throw", expr(X->getSubExpr())};
      return J::Array{"throw"};
    }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      return J::Array{"o", "sizeof", X->isArgumentType() ? ty(X->getArgumentType()) : ty(X->getArgumentExpr()->getType())};
    }
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) return J::Array{"i", 0, "zeroinit"};
    if (auto *X = dyn_cast<VAArgExpr>(E)) return J::Array{"o", "va_arg"};
    J::Array Kids;
    for (const Stmt *S : E->children())
      if (auto *SE = dyn_cast_or_null<Expr>(S)) Kids.push_back(expr(SE));
    return J::Array{"o", E->getStmtClassName(), std::move(Kids)};
  }

  std::string tyName(QualType T) {
    std::string S = ty(T);
    if (S.rfind("tt::", 0) == 0) S = S.substr(4);
    return S;
  }

  J::Value declref(const DeclRefExpr *D) {
    const ValueDecl *VD = D->getDecl();
    if (auto *F = dyn_cast<FunctionDecl>(VD)) return J::Array{"fn", fid(F)};
    if (auto *P = dyn_cast<ParmVarDecl>(VD))
      return J::Array{"v", P->getNameAsString(), lid(P), "p", ty(P->getType())};
    if (auto *V = dyn_cast<VarDecl>(VD)) {
      if (V->isStaticLocal()) return J::Array{"v", "static " + V->getNameAsString(), lid(V), "g", ty(V->getType())};
      if (V->isLocalVarDecl()) return J::Array{"v", V->getNameAsString(), lid(V), "l", ty(V->getType())};
      return J::Array{"v", qname(V), 0, "g", ty(V->getType())};
    }
    if (auto *B = dyn_cast<BindingDecl>(VD)) return J::Array{"v", B->getNameAsString(), lid(B), "l", ""};
    return J::Array{"o", "declref"};
  }

  // ---- access classification -----------------------------------------
  // how is the object designated by E used?  r, w, rw, a(ddress)
  std::string usage(const Expr *E) {
    const Stmt *S = E;
    bool Arrow = false;
    for (;;) {
      const Stmt *P = PM->getParent(S);
      if (!P) return "r";
      if (isa<ParenExpr>(P)) { S = P; continue; }
      if (auto *I = dyn_cast<ImplicitCastExpr>(P)) {
        if (I->getCastKind() == CK_LValueToRValue) return "r";
        S = P;
        continue;
      }
      if (isa<ExplicitCastExpr>(P)) { S = P; continue; }
      if (auto *B = dyn_cast<BinaryOperator>(P)) {
        if (B->isAssignmentOp() && B->getLHS() == S) return B->isCompoundAssignmentOp() ? "rw" : "w";
        return "r";
      }
      if (auto *U = dyn_cast<UnaryOperator>(P)) {
        if (U->isIncrementDecrementOp()) return "rw";
        if (U->getOpcode() == UO_AddrOf) return "a";
        return "r";
      }
      if (auto *M = dyn_cast<MemberExpr>(P)) {
        if (M->isArrow()) return "r";
        if (auto *MD = dyn_cast<CXXMethodDecl>(M->getMemberDecl())) {
          if (MD->isStatic()) return "r";
          return MD->isConst() ? "r" : methodMut(MD);
        }
        S = P;
        continue;
      }
      if (auto *X = dyn_cast<ArraySubscriptExpr>(P)) {
        if (X->getIdx() == S) return "r";
        S = P;
        continue;
      }
      if (auto *O = dyn_cast<CXXOperatorCallExpr>(P)) {
        auto *FD = O->getDirectCallee();
        if (!FD) return "rw";
        unsigned Idx = 0;
        for (; Idx < O->getNumArgs(); Idx++)
          if (O->getArg(Idx) == S) break;
        if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
          if (Idx == 0) {
            if (MD->isConst()) return "r";
            if (O->getOperator() == OO_Equal) return "w";
            if (O->getOperator() == OO_Subscript || O->getOperator() == OO_Star || O->getOperator() == OO_Arrow) {
              // usage of the returned reference decides, except for maps where [] may insert
              std::string CN = MD->getParent()->getNameAsString();
              if (CN == "map" || CN == "unordered_map" || CN == "robin_map") return "rw";
              S = P;
              continue;
            }
            return "rw";
          }
          Idx--;
        }
        if (Idx < FD->getNumParams()) return byParam(FD->getParamDecl(Idx)->getType());
        return "r";
      }
      if (auto *Call = dyn_cast<CallExpr>(P)) {
        auto *FD = Call->getDirectCallee();
        for (unsigned I = 0; I < Call->getNumArgs(); I++)
          if (Call->getArg(I) == S) {
            if (FD && I < FD->getNumParams()) return byParam(FD->getParamDecl(I)->getType());
            return "r";
          }
        return "r";
      }
      if (auto *K = dyn_cast<CXXConstructExpr>(P)) {
        for (unsigned I = 0; I < K->getNumArgs(); I++)
          if (K->getArg(I) == S && I < K->getConstructor()->getNumParams())
            return byParam(K->getConstructor()->getParamDecl(I)->getType());
        return "r";
      }
      if (isa<ConditionalOperator>(P)) { S = P; continue; }
      return "r";
    }
  }
  std::string methodMut(const CXXMethodDecl *MD) {
    // non-const overloads of accessors do not modify by themselves
    if (MD->getIdentifier()) {
      static const std::set<std::string> RO = {"begin", "end", "find", "front", "back", "at", "data", "rbegin", "rend",
                                               "lower_bound", "upper_bound", "equal_range", "get", "lock", "unlock", "load"};
      if (RO.count(MD->getName().str()) && isLib(MD)) return "r";
    }
    return "rw";
  }
  bool isLib(const CXXMethodDecl *MD) {
    if (MD->getParent()->isInStdNamespace()) return true;
    return file(MD->getLocation()).find("/tsl/") != std::string::npos;
  }
  std::string byParam(QualType T) {
    if (T->isReferenceType() && !T->getPointeeType().isConstQualified()) return "rw";
    return "r";
  }

  // ---- events ----------------------------------------------------------
  void stmtEvents(const Stmt *S, J::Array &Out) {
    unsigned L = line(S->getBeginLoc());
    if (auto *E = dyn_cast<Expr>(S))
      if (E->isValueDependent() || E->isTypeDependent()) return;
    if (auto *X = dyn_cast<CallExpr>(S)) {
      if (strip(X) != X) return; // __builtin_expect and the like
      L = line(X->getExprLoc());
      if (auto *M = dyn_cast<CXXMemberCallExpr>(X)) L = line(M->getExprLoc());
      Out.push_back(J::Object{{"k", "call"}, {"l", L}, {"e", expr(X)}});
    } else if (auto *X = dyn_cast<CXXConstructExpr>(S)) {
      if (strip(X) != X) return;
      Out.push_back(J::Object{{"k", "ctor"}, {"l", L}, {"e", expr(X)}});
    } else if (auto *X = dyn_cast<CXXNewExpr>(S)) {
      Out.push_back(J::Object{{"k", "new"}, {"l", L}, {"e", expr(X)}});
    } else if (auto *X = dyn_cast<CXXDeleteExpr>(S)) {
      Out.push_back(J::Object{{"k", "del"}, {"l", L}, {"e", expr(X)}});
    } else if (auto *X = dyn_cast<CXXThrowExpr>(S)) {
      Out.push_back(J::Object{{"k", "throw"}, {"l", L}, {"e", X->getSubExpr() ? expr(X->getSubExpr()) : J::Value(nullptr)}});
    } else if (auto *X = dyn_cast<BinaryOperator>(S)) {
      if (X->isAssignmentOp())
        Out.push_back(J::Object{{"k", "asg"}, {"l", line(X->getOperatorLoc())}, {"op", X->getOpcodeStr().str()}, {"lhs", expr(X->getLHS())}, {"rhs", expr(X->getRHS())}});
      else if (X->isComparisonOp())
        Out.push_back(J::Object{{"k", "cmp"}, {"l", line(X->getOperatorLoc())}, {"e", expr(X)}});
    } else if (auto *X = dyn_cast<UnaryOperator>(S)) {
      if (X->isIncrementDecrementOp())
        Out.push_back(J::Object{{"k", "asg"}, {"l", L}, {"op", X->isIncrementOp() ? "++" : "--"}, {"lhs", expr(X->getSubExpr())}, {"rhs", J::Array{"i", 1}}, {"post", X->isPostfix() ? 1 : 0}});
      else if (X->getOpcode() == UO_Deref)
        Out.push_back(J::Object{{"k", "deref"}, {"l", L}, {"e", expr(X->getSubExpr())}, {"rw", usage(X)}});
    } else if (auto *X = dyn_cast<ArraySubscriptExpr>(S)) {
      Out.push_back(J::Object{{"k", "sub"}, {"l", L}, {"e", expr(X)}, {"rw", usage(X)}});
    } else if (auto *X = dyn_cast<MemberExpr>(S)) {
      if (isa<FieldDecl>(X->getMemberDecl()) || isa<VarDecl>(X->getMemberDecl()))
        Out.push_back(J::Object{{"k", "acc"}, {"l", line(X->getMemberLoc())}, {"e", expr(X)}, {"rw", usage(X)}, {"arrow", X->isArrow() ? 1 : 0}});
    } else if (auto *X = dyn_cast<DeclRefExpr>(S)) {
      if (auto *V = dyn_cast<VarDecl>(X->getDecl()))
        if (V->hasGlobalStorage())
          Out.push_back(J::Object{{"k", "acc"}, {"l", L}, {"e", expr(X)}, {"rw", usage(X)}});
    } else if (auto *X = dyn_cast<DeclStmt>(S)) {
      for (const Decl *D : X->decls())
        if (auto *V = dyn_cast<VarDecl>(D)) {
          J::Value Init = nullptr;
          if (V->getInit()) Init = expr(V->getInit());
          J::Value Vla = nullptr;
          if (auto *VT = C.getAsVariableArrayType(V->getType()))
            if (VT->getSizeExpr()) Vla = expr(VT->getSizeExpr());
          Out.push_back(J::Object{{"k", "decl"}, {"l", line(V->getLocation())}, {"n", V->getNameAsString()}, {"id", lid(V)},
                                  {"t", ty(V->getType())}, {"init", std::move(Init)}, {"st", V->isStaticLocal() ? 1 : 0}, {"vla", std::move(Vla)}});
        }
    } else if (auto *X = dyn_cast<ReturnStmt>(S)) {
      Out.push_back(J::Object{{"k", "ret"}, {"l", L}, {"e", X->getRetValue() ? expr(X->getRetValue()) : J::Value(nullptr)}});
    }
  }

  void doFunction(const FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody()) return;
    if (F->isDependentContext()) return;
    if (!inRoot(F->getLocation())) return;
    if (F->isImplicit() || F->isDefaulted()) return;
    if (!Seen.insert(F).second) return;
    Stmt *Body = F->getBody();
    if (!Body) return;
    LocalIds.clear();
    CallIds.clear();
    ParentMap PMap(Body);
    if (auto *Ct = dyn_cast<CXXConstructorDecl>(F))
      for (auto *I : Ct->inits())
        if (I->getInit()) PMap.addStmt(I->getInit());
    PM = &PMap;

    J::Object O;
    O["id"] = fid(F);
    O["name"] = F->getNameAsString();
    O["file"] = rel(file(F->getLocation()));
    O["line"] = line(F->getLocation());
    O["end"] = line(F->getEndLoc());
    O["ret"] = ty(F->getReturnType());
    std::string Kind = "f";
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      Kind = isa<CXXConstructorDecl>(M) ? "ctor" : isa<CXXDestructorDecl>(M) ? "dtor" : M->isStatic() ? "sm" : "m";
      O["cls"] = className(M->getParent());
      if (M->isVirtual()) {
        O["virt"] = 1;
        J::Array Ov;
        for (auto *B : M->overridden_methods()) Ov.push_back(fid(B));
        O["over"] = std::move(Ov);
      }
      if (M->getParent()->isLambda()) Kind = "lambda";
    }
    O["kind"] = Kind;
    J::Array Ps;
    for (auto *P : F->parameters())
      Ps.push_back(J::Object{{"n", P->getNameAsString()}, {"id", lid(P)}, {"t", ty(P->getType())}});
    O["params"] = std::move(Ps);

    CFG::BuildOptions BO;
    BO.AddImplicitDtors = true;
    BO.AddInitializers = true;
    BO.AddEHEdges = true;
    BO.PruneTriviallyFalseEdges = true;
    BO.setAllAlwaysAdd();
    std::unique_ptr<CFG> G = CFG::buildCFG(F, Body, &C, BO);
    if (!G) {
      O["nocfg"] = 1;
      Functions.push_back(std::move(O));
      PM = nullptr;
      return;
    }
    O["entry"] = G->getEntry().getBlockID();
    O["exit"] = G->getExit().getBlockID();
    J::Array Blocks;
    for (const CFGBlock *B : *G) {
      J::Object BO2;
      BO2["id"] = B->getBlockID();
      J::Array Ev;
      for (const CFGElement &El : *B) {
        if (auto CS = El.getAs<CFGStmt>())
          stmtEvents(CS->getStmt(), Ev);
        else if (auto CI = El.getAs<CFGInitializer>()) {
          const CXXCtorInitializer *I = CI->getInitializer();
          if (I->isAnyMemberInitializer()) {
            const FieldDecl *FD = I->getAnyMember();
            Ev.push_back(J::Object{{"k", "init"}, {"l", line(I->getSourceLocation())}, {"f", className(dyn_cast<CXXRecordDecl>(FD->getParent())) + "::" + FD->getNameAsString()},
                                   {"e", expr(I->getInit())}, {"written", I->isWritten() ? 1 : 0}});
          } else
            Ev.push_back(J::Object{{"k", "binit"}, {"l", line(I->getSourceLocation())}, {"e", expr(I->getInit())}});
        } else if (auto CD = El.getAs<CFGAutomaticObjDtor>()) {
          const VarDecl *V = CD->getVarDecl();
          Ev.push_back(J::Object{{"k", "dtor"}, {"l", line(CD->getTriggerStmt() ? CD->getTriggerStmt()->getEndLoc() : F->getEndLoc())}, {"n", V->getNameAsString()}, {"id", lid(V)}, {"t", ty(V->getType())}});
        }
      }
      BO2["ev"] = std::move(Ev);
      if (const Stmt *T = B->getTerminatorStmt()) {
        J::Object TO;
        TO["k"] = T->getStmtClassName();
        TO["l"] = line(T->getBeginLoc());
        if (auto *BO3 = dyn_cast<BinaryOperator>(T)) TO["op"] = BO3->getOpcodeStr().str();
        const Expr *Cond = nullptr;
        if (auto *Sw = dyn_cast<SwitchStmt>(T)) Cond = Sw->getCond();
        else if (isa<CXXTryStmt>(T) || isa<GotoStmt>(T) || isa<BreakStmt>(T) || isa<ContinueStmt>(T)) Cond = nullptr;
        else if (B->succ_size() >= 2) {
          Cond = B->getLastCondition();
          if (!Cond) Cond = dyn_cast_or_null<Expr>(B->getTerminatorCondition());
        }
        if (Cond) TO["c"] = expr(Cond);
        BO2["term"] = std::move(TO);
      }
      if (const Stmt *Lb = B->getLabel()) {
        if (auto *CaseS = dyn_cast<CaseStmt>(Lb)) {
          J::Array Cv{"case", expr(CaseS->getLHS())};
          if (CaseS->getRHS()) Cv.push_back(expr(CaseS->getRHS()));
          BO2["label"] = std::move(Cv);
        } else if (isa<DefaultStmt>(Lb)) BO2["label"] = J::Array{"default"};
        else if (auto *Ca = dyn_cast<CXXCatchStmt>(Lb)) BO2["label"] = J::Array{"catch", Ca->getCaughtType().isNull() ? "..." : ty(Ca->getCaughtType())};
        else if (auto *LS = dyn_cast<LabelStmt>(Lb)) BO2["label"] = J::Array{"label", LS->getName()};
      }
      if (B->getLoopTarget()) BO2["loopback"] = 1;
      J::Array Su;
      for (auto &Sc : B->succs()) {
        if (const CFGBlock *R = Sc.getReachableBlock()) Su.push_back(R->getBlockID());
        else if (const CFGBlock *U = Sc.getPossiblyUnreachableBlock()) Su.push_back(J::Array{U->getBlockID()});
        else Su.push_back(nullptr);
      }
      BO2["succ"] = std::move(Su);
      if (B->hasNoReturnElement()) BO2["noret"] = 1;
      Blocks.push_back(std::move(BO2));
    }
    O["blocks"] = std::move(Blocks);
    Functions.push_back(std::move(O));
    PM = nullptr;
  }

  bool VisitFunctionDecl(FunctionDecl *F) {
    doFunction(F);
    return true;
  }
  bool VisitLambdaExpr(LambdaExpr *L) {
    doFunction(L->getCallOperator());
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return true;
    if (!inRoot(R->getLocation())) return true;
    J::Object O;
    O["name"] = className(R);
    O["file"] = rel(file(R->getLocation()));
    O["line"] = line(R->getLocation());
    J::Array Bs;
    for (auto &B : R->bases())
      if (auto *BR = B.getType()->getAsCXXRecordDecl()) Bs.push_back(className(BR));
    O["bases"] = std::move(Bs);
    J::Array Fs;
    for (auto *F : R->fields()) {
      J::Object FO{{"n", F->getNameAsString()}, {"t", ty(F->getType())}, {"l", line(F->getLocation())}};
      if (F->isBitField()) FO["bits"] = F->getBitWidthValue(C);
      Fs.push_back(std::move(FO));
    }
    for (auto *D : R->decls())
      if (auto *V = dyn_cast<VarDecl>(D))
        Fs.push_back(J::Object{{"n", V->getNameAsString()}, {"t", ty(V->getType())}, {"l", line(V->getLocation())}, {"static", 1}});
    O["fields"] = std::move(Fs);
    J::Array Ms;
    for (auto *M : R->methods()) {
      if (M->isImplicit()) continue;
      Ms.push_back(J::Object{{"id", fid(M)}, {"virt", M->isVirtual() ? 1 : 0}, {"pure", M->isPureVirtual() ? 1 : 0}, {"access", (int)M->getAccess()}});
    }
    O["methods"] = std::move(Ms);
    if (!R->isInvalidDecl() && R->isCompleteDefinition() && !R->isDependentType())
      O["size"] = (int64_t)C.getTypeSizeInChars(C.getRecordType(R)).getQuantity();
    Records.push_back(std::move(O));
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!E->isThisDeclarationADefinition() || !inRoot(E->getLocation())) return true;
    J::Array A;
    for (auto *K : E->enumerators()) A.push_back(J::Array{qname(K), K->getInitVal().getExtValue()});
    Enums.push_back(J::Object{{"name", qname(E)}, {"consts", std::move(A)}, {"file", rel(file(E->getLocation()))}});
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (!V->hasGlobalStorage() || V->isStaticLocal() || !inRoot(V->getLocation())) return true;
    if (V->getDeclContext()->isDependentContext()) return true;
    if (V->isThisDeclarationADefinition() == VarDecl::DeclarationOnly) return true;
    J::Value Init = nullptr;
    if (V->getInit() && !V->getInit()->isValueDependent()) Init = expr(V->getInit());
    Globals.push_back(J::Object{{"name", qname(V)}, {"t", ty(V->getType())}, {"init", std::move(Init)}, {"file", rel(file(V->getLocation()))}, {"line", line(V->getLocation())}});
    return true;
  }
};

struct Consumer : public ASTConsumer {
  std::string In;
  Consumer(llvm::StringRef In) : In(In) {}
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Extractor X(C);
    X.TraverseDecl(C.getTranslationUnitDecl());
    J::Object O;
    O["tu"] = In;
    O["functions"] = std::move(X.Functions);
    O["records"] = std::move(X.Records);
    O["enums"] = std::move(X.Enums);
    O["globals"] = std::move(X.Globals);
    llvm::outs() << J::Value(std::move(O)) << "\n";
    llvm::outs().flush();
  }
};
struct Action : public ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef F) override {
    return std::make_unique<Consumer>(F);
  }
};
} // namespace

int main(int argc, const char **argv) {
  // extract ROOT FILE -- FLAGS...
  if (argc < 4) { llvm::errs() << "usage: extract ROOT FILE -- flags\n"; return 2; }
  Root = argv[1];
  if (Root.back() != '/') Root += "/";
  std::string File = argv[2];
  std::vector<std::string> Flags;
  for (int I = 4; I < argc; I++) Flags.push_back(argv[I]);
  clang::tooling::FixedCompilationDatabase DB(Root, Flags);
  clang::tooling::ClangTool T(DB, {File});
  return T.run(clang::tooling::newFrontendActionFactory<Action>().get());
}
