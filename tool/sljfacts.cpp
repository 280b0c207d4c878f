// sljfacts: dumps the resolved, macro-expanded program of one translation unit
// as compact JSON (function bodies as statement/expression trees with resolved
// callees, record fields, folded integer constants, pointer element sizes).
// Built against libclang-cpp; contains no analysis of its own.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Decl.h"
#include "clang/AST/Expr.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/Stmt.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include <map>
#include <set>
#include <string>
#include <vector>
#include <cstdio>

using namespace clang;
typedef std::string S;

static S esc(const S &s) {
  S o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

struct Dumper {
  ASTContext &C;
  SourceManager &SM;
  std::map<S, int> fileIdx;
  std::vector<S> files;
  std::map<const Decl *, S> names;
  std::set<S> used;
  S curFn;
  std::set<const RecordDecl *> recs;
  std::vector<const VarDecl *> statics;
  std::vector<std::pair<S, S>> locals;
  Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()) {}

  S line(SourceLocation L) {
    SourceLocation E = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(E);
    if (P.isInvalid()) return "0";
    S f = P.getFilename();
    auto it = fileIdx.find(f);
    int i;
    if (it == fileIdx.end()) { i = files.size(); files.push_back(f); fileIdx[f] = i; }
    else i = it->second;
    return std::to_string((long long)i * 1000000 + P.getLine());
  }

  S tyName(QualType T) {
    T = T.getCanonicalType().getUnqualifiedType();
    if (T->isPointerType()) return "p";
    if (T->isEnumeralType()) return "s32";
    if (T->isBooleanType()) return "u8";
    if (T->isIntegerType()) {
      return S(T->isUnsignedIntegerOrEnumerationType() ? "u" : "s") + std::to_string(C.getTypeSize(T));
    }
    if (T->isVoidType()) return "void";
    if (T->isRealFloatingType()) return "f" + std::to_string(C.getTypeSize(T));
    return "x";
  }
  S fullTy(QualType T) {
    QualType Q = T.getCanonicalType();
    if (const RecordType *R = Q->getAs<RecordType>()) recs.insert(R->getDecl());
    if (Q->isPointerType()) if (const RecordType *R = Q->getPointeeType()->getAs<RecordType>()) recs.insert(R->getDecl());
    return Q.getAsString();
  }
  long long elemSize(QualType P) {
    QualType T;
    if (P->isPointerType()) T = P->getPointeeType();
    else if (const ArrayType *A = C.getAsArrayType(P)) T = A->getElementType();
    else return 1;
    if (T->isVoidType() || T->isFunctionType() || T->isIncompleteType()) return 1;
    return C.getTypeSizeInChars(T).getQuantity();
  }

  S varName(const ValueDecl *D) {
    auto it = names.find(D);
    if (it != names.end()) return it->second;
    S n;
    if (const VarDecl *V = dyn_cast<VarDecl>(D)) {
      if (V->isFileVarDecl() || V->hasExternalStorage()) n = "::" + V->getNameAsString();
      else if (V->isStaticLocal()) { n = "::" + curFn + "." + V->getNameAsString(); }
    }
    if (n.empty()) {
      n = D->getNameAsString();
      if (n.empty()) n = "_anon";
      S base = n; int k = 2;
      while (used.count(n)) n = base + "@" + std::to_string(k++);
      used.insert(n);
    }
    names[D] = n;
    return n;
  }

  // entries of the register maps stay visible as such
  static bool usesRegisterMap(const Stmt *X) {
    if (!X) return false;
    if (const ArraySubscriptExpr *A = dyn_cast<ArraySubscriptExpr>(X))
      if (const DeclRefExpr *D = dyn_cast<DeclRefExpr>(A->getBase()->IgnoreParenImpCasts())) {
        S n = D->getDecl()->getNameAsString();
        if (n.find("reg_map") != S::npos || n.find("reg_lmap") != S::npos) return true;
      }
    for (const Stmt *K : X->children()) if (usesRegisterMap(K)) return true;
    return false;
  }

  bool fold(const Expr *E, S &out) {
    if (E->isValueDependent()) return false;
    QualType T = E->getType();
    if (!T->isIntegralOrEnumerationType()) return false;
    if (isa<DeclRefExpr>(E) && !isa<EnumConstantDecl>(cast<DeclRefExpr>(E)->getDecl())) return false;
    Expr::EvalResult R;
    if (!E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) return false;
    if (R.HasSideEffects) return false;
    if (usesRegisterMap(E)) return false;
    llvm::SmallString<32> s;
    R.Val.getInt().toString(s, 10);
    out = S("[\"i\",") + S(s.str()) + "]";
    return true;
  }

  S ex(const Expr *E) {
    if (!E) return "null";
    E = E->IgnoreParens();
    S f;
    if (fold(E, f)) return f;
    if (const ImplicitCastExpr *IC = dyn_cast<ImplicitCastExpr>(E)) return cast_(IC);
    if (const CStyleCastExpr *CC = dyn_cast<CStyleCastExpr>(E)) return cast_(CC);
    if (const StringLiteral *SL = dyn_cast<StringLiteral>(E)) {
      if (SL->getCharByteWidth() == 1) return "[\"s\"," + esc(SL->getString().str()) + "]";
      return "[\"s\",\"?\"]";
    }
    if (const FloatingLiteral *FL = dyn_cast<FloatingLiteral>(E))
      return "[\"fl\"," + esc(std::to_string(FL->getValueAsApproximateDouble())) + "]";
    if (const DeclRefExpr *D = dyn_cast<DeclRefExpr>(E)) {
      if (isa<FunctionDecl>(D->getDecl())) return "[\"f\"," + esc(D->getDecl()->getNameAsString()) + "]";
      const VarDecl *V = dyn_cast<VarDecl>(D->getDecl());
      if (V && V->isStaticLocal()) varName(V);
      return "[\"v\"," + esc(varName(D->getDecl())) + "]";
    }
    if (const MemberExpr *M = dyn_cast<MemberExpr>(E)) {
      const FieldDecl *FD = dyn_cast<FieldDecl>(M->getMemberDecl());
      S b = ex(M->getBase());
      if (M->isArrow()) b = "[\"*\"," + b + "," + std::to_string(elemSize(M->getBase()->getType())) + "]";
      S rn = "?";
      if (FD) { recs.insert(FD->getParent()); rn = recName(FD->getParent()); }
      return "[\"m\"," + b + "," + esc(M->getMemberDecl()->getNameAsString()) + "," + esc(rn) + "]";
    }
    if (const ArraySubscriptExpr *A = dyn_cast<ArraySubscriptExpr>(E))
    {
      // 5th element: "a" true array, "p" through a pointer
      const Expr *Bs = A->getBase()->IgnoreParens();
      const CastExpr *BC = dyn_cast<CastExpr>(Bs);
      bool arr = BC && BC->getCastKind() == CK_ArrayToPointerDecay;
      return "[\"x\"," + ex(arr ? BC->getSubExpr() : Bs) + "," + ex(A->getIdx()) + "," + std::to_string(elemSize(A->getBase()->getType())) + (arr ? ",\"a\"]" : ",\"p\"]");
    }
    if (const UnaryOperator *U = dyn_cast<UnaryOperator>(E)) {
      S s = ex(U->getSubExpr());
      switch (U->getOpcode()) {
      case UO_Deref: return "[\"*\"," + s + "," + std::to_string(elemSize(U->getSubExpr()->getType())) + "]";
      case UO_AddrOf: return "[\"&\"," + s + "]";
      case UO_PostInc: case UO_PreInc: case UO_PostDec: case UO_PreDec: {
        long long es = U->getType()->isPointerType() ? elemSize(U->getType()) : 0;
        return S("[\"++\",") + s + "," + (U->isPostfix() ? "\"post\"" : "\"pre\"") + "," + (U->isIncrementOp() ? "1" : "-1") + "," + std::to_string(es) + "," + esc(tyName(U->getType())) + "]";
      }
      case UO_Extension: return s;
      default: return "[\"u\"," + esc(UnaryOperator::getOpcodeStr(U->getOpcode()).str()) + "," + s + "," + esc(tyName(U->getType())) + "]";
      }
    }
    if (const CompoundAssignOperator *CA = dyn_cast<CompoundAssignOperator>(E)) {
      S op = BinaryOperator::getOpcodeStr(CA->getOpcode()).str();
      op = op.substr(0, op.size() - 1);
      long long es = CA->getLHS()->getType()->isPointerType() ? elemSize(CA->getLHS()->getType()) : 0;
      return "[\"op=\"," + esc(op) + "," + ex(CA->getLHS()) + "," + ex(CA->getRHS()) + "," + std::to_string(es) + "," + esc(tyName(CA->getType())) + "," + line(CA->getOperatorLoc()) + "]";
    }
    if (const BinaryOperator *B = dyn_cast<BinaryOperator>(E)) {
      S l = ex(B->getLHS()), r = ex(B->getRHS());
      if (B->getOpcode() == BO_Assign) return "[\"=\"," + l + "," + r + "," + line(B->getOperatorLoc()) + "," + esc(tyName(B->getLHS()->getType())) + "]";
      if (B->getOpcode() == BO_LAnd) return "[\"&&\"," + l + "," + r + "]";
      if (B->getOpcode() == BO_LOr) return "[\"||\"," + l + "," + r + "]";
      if (B->getOpcode() == BO_Comma) return "[\",\"," + l + "," + r + "]";
      if (B->isAdditiveOp() && B->getType()->isPointerType()) {
        bool lp = B->getLHS()->getType()->isPointerType();
        S p = lp ? l : r, i = lp ? r : l;
        if (B->getOpcode() == BO_Sub) i = "[\"u\",\"-\"," + i + ",\"s64\"]";
        return "[\"p+\"," + p + "," + i + "," + std::to_string(elemSize(B->getType())) + "]";
      }
      if (B->getOpcode() == BO_Sub && B->getLHS()->getType()->isPointerType())
        return "[\"p-\"," + l + "," + r + "," + std::to_string(elemSize(B->getLHS()->getType())) + "]";
      S ty = tyName(B->isComparisonOp() ? B->getLHS()->getType() : B->getType());
      return "[\"b\"," + esc(B->getOpcodeStr().str()) + "," + l + "," + r + "," + esc(ty) + "]";
    }
    if (const ConditionalOperator *CO = dyn_cast<ConditionalOperator>(E))
      return "[\"?\"," + ex(CO->getCond()) + "," + ex(CO->getTrueExpr()) + "," + ex(CO->getFalseExpr()) + "]";
    if (const CallExpr *CE = dyn_cast<CallExpr>(E)) {
      // __builtin_expect(x, c) is transparent.
      if (const FunctionDecl *FD = CE->getDirectCallee())
        if (FD->getNameAsString() == "__builtin_expect") return ex(CE->getArg(0));
      S o = "[\"c\"," + ex(CE->getCallee()) + ",[";
      for (unsigned i = 0; i < CE->getNumArgs(); i++) { if (i) o += ","; o += ex(CE->getArg(i)); }
      return o + "]," + line(CE->getBeginLoc()) + "," + esc(tyName(CE->getType())) + "]";
    }
    if (const InitListExpr *IL0 = dyn_cast<InitListExpr>(E)) {
      const InitListExpr *IL = IL0->isSemanticForm() ? IL0 : (IL0->getSemanticForm() ? IL0->getSemanticForm() : IL0);
      S o = "[\"il\"";
      for (unsigned i = 0; i < IL->getNumInits(); i++) { o += ","; o += ex(IL->getInit(i)); }
      return o + "]";
    }
    if (const CompoundLiteralExpr *CL = dyn_cast<CompoundLiteralExpr>(E)) return ex(CL->getInitializer());
    if (const StmtExpr *SE = dyn_cast<StmtExpr>(E)) return "[\"stmtexpr\"," + st(SE->getSubStmt()) + "]";
    if (const ConstantExpr *K = dyn_cast<ConstantExpr>(E)) return ex(K->getSubExpr());
    if (isa<ImplicitValueInitExpr>(E)) return "[\"i\",0]";
    if (const OpaqueValueExpr *O = dyn_cast<OpaqueValueExpr>(E)) return ex(O->getSourceExpr());
    return S("[\"unk\",") + esc(E->getStmtClassName()) + "]";
  }

  S cast_(const CastExpr *K) {
    switch (K->getCastKind()) {
    case CK_ArrayToPointerDecay: {
      S b = ex(K->getSubExpr());
      return b.compare(0, 4, "[\"s\"") == 0 ? b : "[\"&\"," + b + "]";
    }
    case CK_LValueToRValue: case CK_FunctionToPointerDecay:
    case CK_NoOp: case CK_BuiltinFnToFnPtr: case CK_ToVoid:
      return ex(K->getSubExpr());
    case CK_NullToPointer: return "[\"i\",0]";
    case CK_BitCast: case CK_PointerToIntegral: case CK_IntegralToPointer: case CK_PointerToBoolean: {
      return ex(K->getSubExpr());
    }
    case CK_IntegralCast: {
      QualType F = K->getSubExpr()->getType(), T = K->getType();
      return "[\"t\"," + esc(tyName(T)) + "," + ex(K->getSubExpr()) + "," + esc(tyName(F)) + "]";
    }
    default:
      return ex(K->getSubExpr());
    }
  }

  S recName(const RecordDecl *R) {
    S n = R->getNameAsString();
    if (n.empty()) { if (const TypedefNameDecl *T = R->getTypedefNameForAnonDecl()) n = T->getNameAsString(); }
    if (n.empty()) n = "anon@" + line(R->getLocation());
    return n;
  }

  S st(const Stmt *s) {
    if (!s) return "null";
    S L = line(s->getBeginLoc());
    if (const CompoundStmt *B = dyn_cast<CompoundStmt>(s)) {
      S o = "[\"blk\"," + L + ",[";
      bool first = true;
      for (const Stmt *x : B->body()) { if (!first) o += ","; first = false; o += st(x); }
      return o + "]," + line(B->getRBracLoc()) + "]";
    }
    if (const DeclStmt *D = dyn_cast<DeclStmt>(s)) {
      S o = "[\"blk\"," + L + ",[";
      bool first = true;
      for (const Decl *d : D->decls()) {
        const VarDecl *V = dyn_cast<VarDecl>(d);
        if (!V) continue;
        if (V->isStaticLocal()) { varName(V); statics.push_back(V); continue; }
        S n = varName(V);
        locals.push_back({n, fullTy(V->getType())});
        if (!first) o += ","; first = false;
        o += "[\"decl\"," + line(V->getLocation()) + "," + esc(n) + "," + (V->hasInit() ? ex(V->getInit()) : S("null")) + "," + esc(tyName(V->getType())) + "]";
      }
      return o + "]," + L + "]";
    }
    if (const IfStmt *I = dyn_cast<IfStmt>(s))
      return "[\"if\"," + L + "," + ex(I->getCond()) + "," + st(I->getThen()) + "," + st(I->getElse()) + "]";
    if (const WhileStmt *W = dyn_cast<WhileStmt>(s)) return "[\"while\"," + L + "," + ex(W->getCond()) + "," + st(W->getBody()) + "]";
    if (const DoStmt *D = dyn_cast<DoStmt>(s)) return "[\"do\"," + L + "," + st(D->getBody()) + "," + ex(D->getCond()) + "]";
    if (const ForStmt *F = dyn_cast<ForStmt>(s))
      return "[\"for\"," + L + "," + st(F->getInit()) + "," + ex(F->getCond()) + "," + ex(F->getInc()) + "," + st(F->getBody()) + "]";
    if (const SwitchStmt *W = dyn_cast<SwitchStmt>(s)) return "[\"switch\"," + L + "," + ex(W->getCond()) + "," + st(W->getBody()) + "]";
    if (const CaseStmt *K = dyn_cast<CaseStmt>(s))
      return "[\"case\"," + L + "," + ex(K->getLHS()) + "," + (K->getRHS() ? ex(K->getRHS()) : S("null")) + "," + st(K->getSubStmt()) + "]";
    if (const DefaultStmt *K = dyn_cast<DefaultStmt>(s)) return "[\"default\"," + L + "," + st(K->getSubStmt()) + "]";
    if (const LabelStmt *K = dyn_cast<LabelStmt>(s)) return "[\"label\"," + L + "," + esc(K->getName()) + "," + st(K->getSubStmt()) + "]";
    if (const GotoStmt *K = dyn_cast<GotoStmt>(s)) return "[\"goto\"," + L + "," + esc(K->getLabel()->getNameAsString()) + "]";
    if (isa<BreakStmt>(s)) return "[\"break\"," + L + "]";
    if (isa<ContinueStmt>(s)) return "[\"continue\"," + L + "]";
    if (const ReturnStmt *R = dyn_cast<ReturnStmt>(s)) return "[\"return\"," + L + "," + (R->getRetValue() ? ex(R->getRetValue()) : S("null")) + "]";
    if (isa<NullStmt>(s)) return "[\"blk\"," + L + ",[]," + L + "]";
    if (const GCCAsmStmt *A = dyn_cast<GCCAsmStmt>(s)) {
      S o = "[\"asm\"," + L + "," + esc(A->getAsmString()->getString().str()) + ",[";
      for (unsigned i = 0; i < A->getNumOutputs(); i++) { if (i) o += ","; o += ex(A->getOutputExpr(i)); }
      o += "],[";
      for (unsigned i = 0; i < A->getNumInputs(); i++) { if (i) o += ","; o += ex(A->getInputExpr(i)); }
      return o + "]]";
    }
    if (const AttributedStmt *A = dyn_cast<AttributedStmt>(s)) return st(A->getSubStmt());
    if (const Expr *E = dyn_cast<Expr>(s)) return "[\"expr\"," + L + "," + ex(E) + "]";
    return "[\"unkstmt\"," + L + "," + esc(s->getStmtClassName()) + "]";
  }
};

struct Cons : ASTConsumer {
  S out;
  Cons(S o) : out(o) {}
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Dumper D(C);
    FILE *f = fopen(out.c_str(), "w");
    if (!f) { perror(out.c_str()); exit(3); }
    fprintf(f, "{\"functions\":[\n");
    bool first = true;
    std::vector<const VarDecl *> globals;
    std::vector<const FunctionDecl *> protos;
    for (Decl *d : C.getTranslationUnitDecl()->decls()) {
      if (RecordDecl *R = dyn_cast<RecordDecl>(d)) if (R->isCompleteDefinition() && D.SM.getFileID(D.SM.getExpansionLoc(R->getLocation())) .isValid()) {
        if (R->getNameAsString().rfind("sljit", 0) == 0) D.recs.insert(R);
      }
      if (VarDecl *V = dyn_cast<VarDecl>(d)) globals.push_back(V);
      if (FunctionDecl *F = dyn_cast<FunctionDecl>(d)) {
        if (!F->doesThisDeclarationHaveABody()) { protos.push_back(F); continue; }
        if (D.SM.isInSystemHeader(F->getLocation())) continue;
        D.curFn = F->getNameAsString();
        D.used.clear(); D.locals.clear();
        S params = "[";
        bool fp = true;
        for (ParmVarDecl *P : F->parameters()) {
          if (!fp) params += ","; fp = false;
          params += "[" + esc(D.varName(P)) + "," + esc(D.fullTy(P->getType())) + "," + esc(D.tyName(P->getType())) + "]";
        }
        params += "]";
        S body = D.st(F->getBody());
        S loc = "[";
        for (size_t i = 0; i < D.locals.size(); i++) { if (i) loc += ","; loc += "[" + esc(D.locals[i].first) + "," + esc(D.locals[i].second) + "]"; }
        loc += "]";
        fprintf(f, "%s{\"name\":%s,\"line\":%s,\"static\":%s,\"ret\":%s,\"retc\":%s,\"params\":%s,\"locals\":%s,\"body\":%s}", first ? "" : ",\n",
                esc(D.curFn).c_str(), D.line(F->getLocation()).c_str(), F->getStorageClass() == SC_Static ? "true" : "false",
                esc(D.fullTy(F->getReturnType())).c_str(), esc(D.tyName(F->getReturnType())).c_str(), params.c_str(), loc.c_str(), body.c_str());
        first = false;
      }
    }
    fprintf(f, "\n],\"globals\":[\n");
    first = true;
    auto dumpVar = [&](const VarDecl *V) {
      if (D.SM.isInSystemHeader(V->getLocation())) return;
      QualType T = V->getType();
      QualType E = T;
      long long n = -1;
      bool isConst = T.isConstQualified();
      while (const ArrayType *A = C.getAsArrayType(E)) {
        if (const ConstantArrayType *CA = dyn_cast<ConstantArrayType>(A)) { if (n < 0) n = CA->getSize().getZExtValue(); }
        E = A->getElementType();
        if (E.isConstQualified()) isConst = true;
      }
      S nm = D.varName(V);
      S init = V->getInit() ? D.ex(V->getInit()) : S("null");
      fprintf(f, "%s{\"name\":%s,\"line\":%s,\"type\":%s,\"const\":%s,\"static\":%s,\"len\":%lld,\"def\":%s,\"init\":%s}", first ? "" : ",\n",
              esc(nm).c_str(), D.line(V->getLocation()).c_str(), esc(D.fullTy(T)).c_str(), isConst ? "true" : "false",
              V->getStorageClass() == SC_Static ? "true" : "false", n, V->isThisDeclarationADefinition() != VarDecl::DeclarationOnly ? "true" : "false", init.c_str());
      first = false;
    };
    for (auto *V : globals) dumpVar(V);
    for (auto *V : D.statics) dumpVar(V);
    fprintf(f, "\n],\"protos\":[\n");
    first = true;
    for (auto *F : protos) {
      if (D.SM.isInSystemHeader(F->getLocation())) continue;
      fprintf(f, "%s[%s,%s,%s,%s]", first ? "" : ",\n", esc(F->getNameAsString()).c_str(), D.line(F->getLocation()).c_str(), esc(F->getType().getCanonicalType().getAsString()).c_str(), F->getStorageClass() == SC_Static ? "true" : "false");
      first = false;
    }
    fprintf(f, "\n],\"records\":{\n");
    first = true;
    std::set<const RecordDecl *> done;
    bool more = true;
    std::set<S> rn;
    S recout;
    while (more) {
      more = false;
      std::set<const RecordDecl *> cur = D.recs;
      for (const RecordDecl *R0 : cur) {
        const RecordDecl *R = R0->getDefinition();
        if (!R || done.count(R)) continue;
        done.insert(R);
        more = true;
        S n = D.recName(R);
        if (rn.count(n)) continue;
        rn.insert(n);
        const ASTRecordLayout &L = C.getASTRecordLayout(R);
        S o = esc(n) + ":{\"size\":" + std::to_string(L.getSize().getQuantity()) + ",\"line\":" + D.line(R->getLocation()) + ",\"union\":" + (R->isUnion() ? "true" : "false") + ",\"fields\":[";
        bool ff = true;
        for (const FieldDecl *F : R->fields()) {
          if (!ff) o += ","; ff = false;
          o += "[" + esc(F->getNameAsString()) + "," + esc(D.fullTy(F->getType())) + "," + std::to_string(L.getFieldOffset(F->getFieldIndex())) + "," + std::to_string(C.getTypeSize(F->getType())) + "]";
        }
        recout += (first ? S("") : S(",\n")) + o + "]}";
        first = false;
      }
    }
    fprintf(f, "%s", recout.c_str());
    fprintf(f, "\n},\"files\":[");
    for (size_t i = 0; i < D.files.size(); i++) fprintf(f, "%s%s", i ? "," : "", esc(D.files[i]).c_str());
    fprintf(f, "]}\n");
    fclose(f);
  }
};

static S gOut;
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(gOut); }
};
struct Fac : tooling::FrontendActionFactory {
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<Act>(); }
};

int main(int argc, char **argv) {
  // usage: sljfacts OUT FILE -- clang-args...
  if (argc < 4) { fprintf(stderr, "usage: sljfacts OUT FILE -- args\n"); return 2; }
  gOut = argv[1];
  std::vector<S> args;
  for (int i = 4; i < argc; i++) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", args);
  tooling::ClangTool T(DB, {argv[2]});
  Fac fac;
  int r = T.run(&fac);
  return r ? 1 : 0;
}
