// Mechanical extractor: C++ (clang AST) -> JSON.
//
// Every function body found under the given source prefix is emitted as it is
// seen by clang after macro expansion, overload resolution, implicit
// conversions and template instantiation.  Nothing is simplified except:
// parentheses, ExprWithCleanups, MaterializeTemporary, BindTemporary and
// ConstantExpr wrappers are skipped.
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <string>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
namespace json = llvm::json;

static std::string gPrefix;   // e.g. /repo/reverb/
static std::string gOut;

static std::string StripInline(std::string s) {
  // Drop inline namespaces that only version the ABI.
  auto drop = [&](const std::string& pat_begin, const std::string& until) {
    size_t p;
    while ((p = s.find(pat_begin)) != std::string::npos) {
      size_t e = s.find(until, p + pat_begin.size());
      if (e == std::string::npos) break;
      s.erase(p, e + until.size() - p);
    }
  };
  drop("lts_", "::");
  drop("__cxx11", "::");
  drop("debian", "::");
  return s;
}

class Emitter {
 public:
  Emitter(ASTContext& ctx) : C(ctx), SM(ctx.getSourceManager()) {
    PP.SuppressTagKeyword = true;
    PP.SuppressUnwrittenScope = true;
    PP.Bool = true;
    PP.PrintCanonicalTypes = true;
  }

  ASTContext& C;
  SourceManager& SM;
  PrintingPolicy PP{LangOptions()};
  std::map<const void*, int> typeIdx;
  std::vector<json::Value> types;
  std::map<const Decl*, int> declIds;
  std::map<std::string, json::Value> functions;  // usr -> fn
  std::map<std::string, json::Value> records;    // name -> record
  std::vector<const CXXRecordDecl*> recordQueue;
  std::set<const CXXRecordDecl*> recordSeen;

  std::string FileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto f = SM.getFilename(L);
    return f.str();
  }
  int LineOf(SourceLocation L) {
    return (int)SM.getExpansionLineNumber(L);
  }
  bool InPrefix(SourceLocation L) {
    std::string f = FileOf(L);
    if (f.compare(0, gPrefix.size(), gPrefix) != 0) return false;
    if (f.find(".pb.") != std::string::npos) return false;
    return true;
  }
  int Id(const Decl* D) {
    D = D->getCanonicalDecl();
    auto it = declIds.find(D);
    if (it != declIds.end()) return it->second;
    int n = declIds.size() + 1;
    declIds[D] = n;
    return n;
  }
  std::string USR(const Decl* D) {
    llvm::SmallString<128> buf;
    if (index::generateUSRForDecl(D, buf)) return "";
    return buf.str().str();
  }
  std::string LambdaName(const CXXRecordDecl* R) {
    return "lambda@" + llvm::sys::path::filename(FileOf(R->getBeginLoc())).str() +
           ":" + std::to_string(Id(R));
  }
  std::string RecName(const CXXRecordDecl* R) {
    if (R->isLambda()) return LambdaName(R);
    std::string s;
    llvm::raw_string_ostream os(s);
    R->printQualifiedName(os, PP);  // prints without template args
    return StripInline(os.str());
  }
  std::string FnName(const FunctionDecl* F) {
    std::string s;
    llvm::raw_string_ostream os(s);
    F->printQualifiedName(os, PP);
    std::string r = StripInline(os.str());
    if (auto* M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda()) return LambdaName(M->getParent()) + "::operator()";
    return r;
  }

  json::Value TArg(const TemplateArgument& A) {
    switch (A.getKind()) {
      case TemplateArgument::Type: return json::Value(Type(A.getAsType()));
      case TemplateArgument::Integral: {
        llvm::SmallString<32> s; A.getAsIntegral().toString(s, 10);
        return json::Value("int:" + s.str().str());
      }
      case TemplateArgument::Pack: {
        json::Array a;
        for (auto& x : A.pack_elements()) a.push_back(TArg(x));
        return json::Value(std::move(a));
      }
      default: return json::Value("?");
    }
  }

  int Type(QualType Q) {
    if (Q.isNull()) return -1;
    QualType CQ = Q.getCanonicalType();
    bool isConst = CQ.isConstQualified();
    const void* key = CQ.getAsOpaquePtr();
    auto it = typeIdx.find(key);
    if (it != typeIdx.end()) return it->second;
    int n = types.size();
    typeIdx[key] = n;
    types.push_back(json::Value(nullptr));
    json::Object o;
    std::string str;
    { llvm::raw_string_ostream os(str); CQ.getUnqualifiedType().print(os, PP); }
    o["s"] = StripInline(str);
    if (isConst) o["const"] = true;
    const clang::Type* T = CQ.getTypePtr();
    if (T->isBooleanType()) {
      o["k"] = "bool";
    } else if (auto* E = dyn_cast<EnumType>(T)) {
      o["k"] = "enum";
      std::string s; llvm::raw_string_ostream os(s);
      E->getDecl()->printQualifiedName(os, PP);
      o["name"] = StripInline(os.str());
      QualType it2 = E->getDecl()->getIntegerType();
      o["bits"] = it2.isNull() ? 32 : (int64_t)C.getTypeSize(it2);
      o["signed"] = it2.isNull() ? true : it2->isSignedIntegerType();
    } else if (T->isIntegerType() && !T->isDependentType()) {
      o["k"] = "int";
      o["bits"] = (int64_t)C.getTypeSize(CQ);
      o["signed"] = T->isSignedIntegerType();
    } else if (T->isRealFloatingType()) {
      o["k"] = "float";
      o["bits"] = (int64_t)C.getTypeSize(CQ);
    } else if (T->isVoidType()) {
      o["k"] = "void";
    } else if (T->isNullPtrType()) {
      o["k"] = "nullptr";
    } else if (auto* P = dyn_cast<PointerType>(T)) {
      o["k"] = "ptr";
      o["to"] = Type(P->getPointeeType());
    } else if (auto* R = dyn_cast<ReferenceType>(T)) {
      o["k"] = "ref";
      o["rv"] = isa<RValueReferenceType>(T);
      o["to"] = Type(R->getPointeeType());
    } else if (auto* R = T->getAsCXXRecordDecl()) {
      o["k"] = "rec";
      o["name"] = RecName(R);
      if (auto* S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
        json::Array a;
        for (auto& A : S->getTemplateArgs().asArray()) a.push_back(TArg(A));
        o["args"] = std::move(a);
      }
      if (R->isLambda()) o["lambda"] = true;
      if (!T->isDependentType()) QueueRecord(R);
    } else if (auto* A = dyn_cast<ConstantArrayType>(T)) {
      o["k"] = "array";
      o["to"] = Type(A->getElementType());
      o["n"] = (int64_t)A->getSize().getZExtValue();
    } else if (isa<FunctionProtoType>(T)) {
      o["k"] = "fn";
    } else {
      o["k"] = "other";
    }
    types[n] = std::move(o);
    return n;
  }

  void QueueRecord(const CXXRecordDecl* R) {
    if (!R->getDefinition()) return;
    R = R->getDefinition();
    if (!recordSeen.insert(R).second) return;
    auto* TS = dyn_cast<ClassTemplateSpecializationDecl>(R);
    if (InPrefix(TS ? TS->getSpecializedTemplate()->getLocation() : R->getLocation()) && !R->isDependentContext()) recordQueue.push_back(R);
  }
  void DrainRecords() {
    while (!recordQueue.empty()) {
      auto* R = recordQueue.back();
      recordQueue.pop_back();
      json::Object o;
      o["name"] = RecName(R);
      std::string tstr;
      { llvm::raw_string_ostream os(tstr); C.getRecordType(R).getCanonicalType().print(os, PP); }
      tstr = StripInline(tstr);
      o["type"] = Type(C.getRecordType(R));
      o["file"] = FileOf(R->getLocation());
      json::Array fs, bs;
      for (auto* F : R->fields()) {
        json::Object f;
        f["name"] = F->getNameAsString();
        f["t"] = Type(F->getType());
        if (F->hasInClassInitializer() && F->getInClassInitializer())
          f["init"] = Expr(F->getInClassInitializer());
        fs.push_back(std::move(f));
      }
      for (auto& B : R->bases()) bs.push_back(Type(B.getType()));
      o["fields"] = std::move(fs);
      o["bases"] = std::move(bs);
      json::Array ms;
      for (auto* M : R->methods()) {
        json::Object m;
        m["fn"] = FnName(M);
        m["usr"] = USR(M);
        m["virtual"] = M->isVirtual();
        m["pure"] = M->isPureVirtual();
        json::Array ov;
        for (auto* O : M->overridden_methods()) ov.push_back(USR(O));
        m["overrides"] = std::move(ov);
        ms.push_back(std::move(m));
      }
      o["methods"] = std::move(ms);
      records.emplace(tstr, json::Value(std::move(o)));
    }
  }

  // ---- functions ----
  void Function(const FunctionDecl* F) {
    const FunctionDecl* Def = nullptr;
    if (!F->hasBody(Def) || !Def) return;
    if (Def != F) return;
    if (F->isDependentContext()) return;
    if (F->isTemplated() && !F->isTemplateInstantiation()) return;
    if (!InPrefix(F->getLocation())) return;
    std::string usr = USR(F);
    if (auto* M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda()) return;  // emitted in place
    if (F->isDefaulted() && F->isImplicit()) return;
    if (functions.count(usr)) return;
    functions.emplace(usr, json::Value(nullptr));
    { json::Value fv = FunctionObj(F); functions.at(usr) = std::move(fv); }
  }

  json::Value FunctionObj(const FunctionDecl* F) {
    json::Object o;
    o["usr"] = USR(F);
    o["name"] = FnName(F);
    o["file"] = FileOf(F->getLocation());
    o["line"] = LineOf(F->getBeginLoc());
    o["endline"] = LineOf(F->getEndLoc());
    o["ret"] = Type(F->getReturnType());
    json::Array ps;
    for (auto* P : F->parameters()) {
      json::Object p;
      p["id"] = Id(P);
      p["name"] = P->getNameAsString();
      p["t"] = Type(P->getType());
      ps.push_back(std::move(p));
    }
    o["params"] = std::move(ps);
    std::string st;
    { llvm::raw_string_ostream os(st); F->getType().getCanonicalType().print(os, PP); }
    o["sig"] = StripInline(st);
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = Type(C.getRecordType(M->getParent()));
      o["static"] = M->isStatic();
      o["const"] = M->isConst();
      o["virtual"] = M->isVirtual();
      json::Array ov;
      for (auto* O : M->overridden_methods()) { json::Object x; x["usr"] = USR(O); x["name"] = FnName(O); ov.push_back(std::move(x)); }
      o["overrides"] = std::move(ov);
    }
    if (isa<CXXConstructorDecl>(F)) o["ctor"] = true;
    if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
    if (auto* Ct = dyn_cast<CXXConstructorDecl>(F)) {
      json::Array is;
      for (auto* I : Ct->inits()) {
        json::Object i;
        if (I->isAnyMemberInitializer()) {
          i["field"] = I->getAnyMember()->getNameAsString();
          i["ft"] = Type(I->getAnyMember()->getType());
        } else if (I->isDelegatingInitializer()) {
          i["delegate"] = true;
        } else {
          i["base"] = Type(QualType(I->getBaseClass(), 0));
        }
        i["written"] = I->isWritten();
        i["e"] = Expr(I->getInit());
        is.push_back(std::move(i));
      }
      o["inits"] = std::move(is);
    }
    o["body"] = Stmt_(F->getBody());
    return std::move(o);
  }

  // ---- statements ----
  json::Value Stmt_(const Stmt* S) {
    if (!S) return nullptr;
    json::Object o;
    o["l"] = LineOf(S->getBeginLoc());
    if (auto* X = dyn_cast<CompoundStmt>(S)) {
      o["k"] = "block";
      json::Array a;
      for (auto* c : X->body()) a.push_back(Stmt_(c));
      o["b"] = std::move(a);
    } else if (auto* X = dyn_cast<DeclStmt>(S)) {
      o["k"] = "decl";
      json::Array a;
      for (auto* D : X->decls()) {
        if (auto* V = dyn_cast<VarDecl>(D)) a.push_back(VarDecl_(V));
      }
      o["d"] = std::move(a);
    } else if (auto* X = dyn_cast<IfStmt>(S)) {
      o["k"] = "if";
      o["constexpr"] = X->isConstexpr();
      if (X->getInit()) o["init"] = Stmt_(X->getInit());
      if (X->getConditionVariable()) o["cv"] = VarDecl_(X->getConditionVariable());
      o["c"] = Expr(X->getCond());
      o["t"] = Stmt_(X->getThen());
      o["e"] = Stmt_(X->getElse());
    } else if (auto* X = dyn_cast<WhileStmt>(S)) {
      o["k"] = "while";
      if (X->getConditionVariable()) o["cv"] = VarDecl_(X->getConditionVariable());
      o["c"] = Expr(X->getCond());
      o["b"] = Stmt_(X->getBody());
    } else if (auto* X = dyn_cast<DoStmt>(S)) {
      o["k"] = "do";
      o["c"] = Expr(X->getCond());
      o["b"] = Stmt_(X->getBody());
    } else if (auto* X = dyn_cast<ForStmt>(S)) {
      o["k"] = "for";
      o["i"] = Stmt_(X->getInit());
      if (X->getConditionVariable()) o["cv"] = VarDecl_(X->getConditionVariable());
      o["c"] = X->getCond() ? Expr(X->getCond()) : json::Value(nullptr);
      o["s"] = X->getInc() ? Expr(X->getInc()) : json::Value(nullptr);
      o["b"] = Stmt_(X->getBody());
    } else if (auto* X = dyn_cast<CXXForRangeStmt>(S)) {
      o["k"] = "rfor";
      o["v"] = VarDecl_(X->getLoopVariable());
      o["r"] = Expr(X->getRangeInit());
      o["b"] = Stmt_(X->getBody());
    } else if (auto* X = dyn_cast<ReturnStmt>(S)) {
      o["k"] = "return";
      o["e"] = X->getRetValue() ? Expr(X->getRetValue()) : json::Value(nullptr);
    } else if (isa<BreakStmt>(S)) {
      o["k"] = "break";
    } else if (isa<ContinueStmt>(S)) {
      o["k"] = "continue";
    } else if (isa<NullStmt>(S)) {
      o["k"] = "null";
    } else if (auto* X = dyn_cast<SwitchStmt>(S)) {
      o["k"] = "switch";
      if (X->getInit()) o["init"] = Stmt_(X->getInit());
      o["c"] = Expr(X->getCond());
      o["b"] = Stmt_(X->getBody());
    } else if (auto* X = dyn_cast<CaseStmt>(S)) {
      o["k"] = "case";
      o["v"] = Expr(X->getLHS());
      o["s"] = Stmt_(X->getSubStmt());
    } else if (auto* X = dyn_cast<DefaultStmt>(S)) {
      o["k"] = "default";
      o["s"] = Stmt_(X->getSubStmt());
    } else if (auto* X = dyn_cast<AttributedStmt>(S)) {
      return Stmt_(X->getSubStmt());
    } else if (auto* X = dyn_cast<clang::Expr>(S)) {
      o["k"] = "expr";
      o["e"] = Expr(X);
    } else {
      o["k"] = "unsupported";
      o["cls"] = S->getStmtClassName();
    }
    return std::move(o);
  }

  json::Value VarDecl_(const VarDecl* V) {
    json::Object o;
    o["id"] = Id(V);
    o["name"] = V->getNameAsString();
    o["t"] = Type(V->getType());
    if (V->isStaticLocal()) o["static"] = true;
    if (V->getInit()) {
      o["init"] = Expr(V->getInit());
      if (V->getInitStyle() == VarDecl::CallInit) o["style"] = "call";
      if (V->getInitStyle() == VarDecl::ListInit) o["style"] = "list";
    }
    if (auto* D = dyn_cast<DecompositionDecl>(V)) {
      json::Array bs;
      for (auto* B : D->bindings()) {
        json::Object b;
        b["name"] = B->getNameAsString();
        b["id"] = Id(B);
        if (auto* H = B->getHoldingVar()) { b["hold"] = Id(H); b["t"] = Type(H->getType()); if (H->getInit()) b["init"] = Expr(H->getInit()); }
        else if (B->getBinding()) b["e"] = Expr(B->getBinding());
        bs.push_back(std::move(b));
      }
      o["bindings"] = std::move(bs);
    }
    return std::move(o);
  }

  void FnRef(json::Object& o, const FunctionDecl* F) {
    if (!F) { o["fn"] = "?"; return; }
    o["fn"] = FnName(F);
    o["usr"] = USR(F);
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
      o["mcls"] = Type(C.getRecordType(M->getParent()));
      if (M->isVirtual()) o["virt"] = true;
      if (M->isConst()) o["mconst"] = true;
      if (M->isStatic()) o["mstatic"] = true;
    }
    o["np"] = (int64_t)F->getNumParams();
    json::Array pt;
    for (auto* P : F->parameters()) pt.push_back(Type(P->getType()));
    o["pt"] = std::move(pt);
    if (auto* ta = F->getTemplateSpecializationArgs()) {
      json::Array a;
      for (auto& A : ta->asArray()) a.push_back(TArg(A));
      o["targs"] = std::move(a);
    }
    if (F->getReturnType()->isReferenceType()) o["retref"] = true;
    if (F->isNoReturn()) o["noreturn"] = true;
    // make sure templates instantiated from the prefix are visited
    const FunctionDecl* Def = nullptr;
    if (F->hasBody(Def) && Def && InPrefix(Def->getLocation())) pendingFns.push_back(Def);
  }
  std::vector<const FunctionDecl*> pendingFns;

  json::Value Args(llvm::iterator_range<CallExpr::const_arg_iterator> as) {
    json::Array a;
    for (auto* x : as) a.push_back(Expr(x));
    return std::move(a);
  }

  json::Value Expr(const clang::Expr* E) {
    if (!E) return nullptr;
    // transparent wrappers
    if (auto* X = dyn_cast<ParenExpr>(E)) return Expr(X->getSubExpr());
    if (auto* X = dyn_cast<ExprWithCleanups>(E)) return Expr(X->getSubExpr());
    if (auto* X = dyn_cast<MaterializeTemporaryExpr>(E)) {
      json::Object o;
      o["k"] = "mat"; o["t"] = Type(E->getType()); o["l"] = LineOf(E->getBeginLoc());
      o["e"] = Expr(X->getSubExpr());
      return std::move(o);
    }
    if (auto* X = dyn_cast<CXXBindTemporaryExpr>(E)) return Expr(X->getSubExpr());
    if (auto* X = dyn_cast<ConstantExpr>(E)) return Expr(X->getSubExpr());
    if (auto* X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return Expr(X->getReplacement());
    if (auto* X = dyn_cast<CXXDefaultArgExpr>(E)) return Expr(X->getExpr());
    if (auto* X = dyn_cast<CXXDefaultInitExpr>(E)) return Expr(X->getExpr());
    if (auto* X = dyn_cast<ChooseExpr>(E)) return Expr(X->getChosenSubExpr());
    if (auto* X = dyn_cast<GenericSelectionExpr>(E)) return Expr(X->getResultExpr());

    json::Object o;
    o["l"] = LineOf(E->getExprLoc());
    o["t"] = Type(E->getType());
    if (E->isLValue()) o["lv"] = true;

    if (auto* X = dyn_cast<IntegerLiteral>(E)) {
      o["k"] = "int";
      llvm::SmallString<32> s; X->getValue().toString(s, 10, false);
      o["v"] = s.str().str();
    } else if (auto* X = dyn_cast<CharacterLiteral>(E)) {
      o["k"] = "int"; o["v"] = std::to_string(X->getValue());
    } else if (auto* X = dyn_cast<CXXBoolLiteralExpr>(E)) {
      o["k"] = "bool"; o["v"] = X->getValue();
    } else if (auto* X = dyn_cast<FloatingLiteral>(E)) {
      o["k"] = "float";
      llvm::SmallString<64> s; X->getValue().toString(s, 0, 0);
      o["v"] = s.str().str();
    } else if (auto* X = dyn_cast<clang::StringLiteral>(E)) {
      o["k"] = "str";
      o["v"] = X->isOrdinary() ? json::fixUTF8(X->getString()) : "";
    } else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
      o["k"] = "null";
    } else if (isa<CXXThisExpr>(E)) {
      o["k"] = "this";
    } else if (auto* X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl* D = X->getDecl();
      if (auto* V = dyn_cast<VarDecl>(D)) {
        if (V->isLocalVarDeclOrParm()) {
          o["k"] = "var"; o["id"] = Id(V); o["name"] = V->getNameAsString();
          if (V->isStaticLocal()) o["static"] = true;
          if (isa<VarDecl>(V) && V->getType()->isReferenceType()) o["isref"] = true;
        } else {
          o["k"] = "global";
          std::string s; llvm::raw_string_ostream os(s);
          V->printQualifiedName(os, PP);
          o["name"] = StripInline(os.str());
        }
        // constant value if known
        if (V->getType().isConstQualified() || V->isConstexpr()) {
          const VarDecl* DefV = V->getInitializingDeclaration();
          if (DefV && DefV->getInit() && !DefV->getInit()->isValueDependent()) {
            clang::Expr::EvalResult R;
            if (DefV->getInit()->EvaluateAsRValue(R, C) && !R.HasSideEffects) {
              if (R.Val.isInt()) { llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); o["cval"] = s.str().str(); }
              else if (R.Val.isFloat()) { llvm::SmallString<64> s; R.Val.getFloat().toString(s, 0, 0); o["cvalf"] = s.str().str(); }
            }
            if (o["k"].getAsString() == llvm::StringRef("global")) o["init"] = Expr(DefV->getInit());
          }
        }
      } else if (auto* EC = dyn_cast<EnumConstantDecl>(D)) {
        o["k"] = "enumc";
        o["name"] = EC->getNameAsString();
        llvm::SmallString<32> s; EC->getInitVal().toString(s, 10);
        o["v"] = s.str().str();
      } else if (auto* F = dyn_cast<FunctionDecl>(D)) {
        o["k"] = "func"; FnRef(o, F);
      } else if (auto* B = dyn_cast<BindingDecl>(D)) {
        o["k"] = "binding"; o["id"] = Id(B); o["name"] = B->getNameAsString();
        if (auto* H = B->getHoldingVar()) o["hold"] = Id(H);
      } else {
        o["k"] = "unsupported"; o["cls"] = "DeclRef";
      }
    } else if (auto* X = dyn_cast<MemberExpr>(E)) {
      if (auto* F = dyn_cast<FieldDecl>(X->getMemberDecl())) {
        o["k"] = "member"; o["b"] = Expr(X->getBase()); o["arrow"] = X->isArrow();
        o["f"] = F->getNameAsString();
        o["mt"] = Type(C.getRecordType(F->getParent()));
        o["ft"] = Type(F->getType());
      } else if (auto* V = dyn_cast<VarDecl>(X->getMemberDecl())) {
        o["k"] = "global";
        std::string s; llvm::raw_string_ostream os(s);
        V->printQualifiedName(os, PP);
        o["name"] = StripInline(os.str());
      } else {
        o["k"] = "memfn"; o["b"] = Expr(X->getBase());
        if (auto* F = dyn_cast<FunctionDecl>(X->getMemberDecl())) FnRef(o, F);
      }
    } else if (auto* X = dyn_cast<CXXOperatorCallExpr>(E)) {
      o["k"] = "opcall";
      o["op"] = getOperatorSpelling(X->getOperator());
      FnRef(o, X->getDirectCallee());
      o["args"] = Args(X->arguments());
      if (auto* M = dyn_cast_or_null<CXXMethodDecl>(X->getDirectCallee())) o["ism"] = true;
    } else if (auto* X = dyn_cast<CXXMemberCallExpr>(E)) {
      o["k"] = "mcall";
      FnRef(o, X->getMethodDecl());
      o["obj"] = Expr(X->getImplicitObjectArgument());
      auto* cal = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens());
      o["arrow"] = cal ? cal->isArrow() : false;
      if (cal && cal->hasQualifier()) o["qual"] = true;
      o["args"] = Args(X->arguments());
    } else if (auto* X = dyn_cast<UserDefinedLiteral>(E)) {
      o["k"] = "unsupported"; o["cls"] = "UDL";
    } else if (auto* X = dyn_cast<CallExpr>(E)) {
      o["k"] = "call";
      if (X->getDirectCallee()) FnRef(o, X->getDirectCallee());
      else o["callee"] = Expr(X->getCallee());
      o["args"] = Args(X->arguments());
      if (auto* ta = dyn_cast<DeclRefExpr>(X->getCallee()->IgnoreImpCasts())) { (void)ta; }
    } else if (auto* X = dyn_cast<CXXTemporaryObjectExpr>(E)) {
      o["k"] = "ctor"; Ctor(o, X);
    } else if (auto* X = dyn_cast<CXXConstructExpr>(E)) {
      o["k"] = "ctor"; Ctor(o, X);
    } else if (auto* X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      o["k"] = "unsupported"; o["cls"] = "InheritedCtor";
    } else if (auto* X = dyn_cast<CastExpr>(E)) {
      o["k"] = "cast";
      o["ck"] = X->getCastKindName();
      o["explicit"] = isa<ExplicitCastExpr>(X);
      o["e"] = Expr(X->getSubExpr());
      if (auto* N = dyn_cast<CXXNamedCastExpr>(X)) o["named"] = N->getCastName();
    } else if (auto* X = dyn_cast<UnaryOperator>(E)) {
      o["k"] = "un";
      o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) o["post"] = true;
      o["e"] = Expr(X->getSubExpr());
    } else if (auto* X = dyn_cast<CompoundAssignOperator>(E)) {
      o["k"] = "cassign";
      std::string op = BinaryOperator::getOpcodeStr(X->getOpcode()).str();
      o["op"] = op.substr(0, op.size() - 1);
      o["L"] = Expr(X->getLHS()); o["R"] = Expr(X->getRHS());
      o["ct"] = Type(X->getComputationResultType());
      o["clt"] = Type(X->getComputationLHSType());
    } else if (auto* X = dyn_cast<BinaryOperator>(E)) {
      o["k"] = X->isAssignmentOp() ? "assign" : "bin";
      o["op"] = BinaryOperator::getOpcodeStr(X->getOpcode()).str();
      o["L"] = Expr(X->getLHS()); o["R"] = Expr(X->getRHS());
    } else if (auto* X = dyn_cast<ConditionalOperator>(E)) {
      o["k"] = "cond";
      o["c"] = Expr(X->getCond()); o["a"] = Expr(X->getTrueExpr()); o["b"] = Expr(X->getFalseExpr());
    } else if (auto* X = dyn_cast<LambdaExpr>(E)) {
      o["k"] = "lambda";
      auto* R = X->getLambdaClass();
      json::Array caps;
      auto init = X->capture_init_begin();
      for (auto& c : X->captures()) {
        json::Object cc;
        if (c.capturesThis()) { cc["this"] = true; }
        else if (c.capturesVariable()) {
          cc["id"] = Id(c.getCapturedVar()); cc["name"] = c.getCapturedVar()->getNameAsString();
          cc["byref"] = c.getCaptureKind() == LCK_ByRef;
          cc["init"] = Expr(*init);
        }
        caps.push_back(std::move(cc));
        ++init;
      }
      o["caps"] = std::move(caps);
      o["name"] = LambdaName(R);
      auto* op = X->getCallOperator();
      if (auto* T = R->getDependentLambdaCallOperator()) {
        // A generic lambda: the one instance of its call operator, if there is only one.
        FunctionDecl* one = nullptr; int n = 0;
        for (auto* F : T->specializations()) { one = F; n++; }
        const FunctionDecl* def = nullptr;
        if (n == 1 && one->getBody(def) && isa<CXXMethodDecl>(def))
          op = const_cast<CXXMethodDecl*>(cast<CXXMethodDecl>(def));
      }
      if (op) {
        if (!op->isDependentContext()) {
          json::Array ps;
          for (auto* P : op->parameters()) {
            json::Object p; p["id"] = Id(P); p["name"] = P->getNameAsString(); p["t"] = Type(P->getType());
            ps.push_back(std::move(p));
          }
          o["params"] = std::move(ps);
          o["ret"] = Type(op->getReturnType());
          o["body"] = Stmt_(op->getBody());
        } else {
          o["generic"] = true;
        }
      }
    } else if (auto* X = dyn_cast<ArraySubscriptExpr>(E)) {
      o["k"] = "index"; o["b"] = Expr(X->getBase()); o["i"] = Expr(X->getIdx());
    } else if (auto* X = dyn_cast<CXXNewExpr>(E)) {
      o["k"] = "new"; o["at"] = Type(X->getAllocatedType());
      if (X->isArray()) o["array"] = true;
      o["e"] = X->getInitializer() ? Expr(X->getInitializer()) : json::Value(nullptr);
    } else if (auto* X = dyn_cast<CXXDeleteExpr>(E)) {
      o["k"] = "delete"; o["e"] = Expr(X->getArgument());
    } else if (auto* X = dyn_cast<InitListExpr>(E)) {
      auto* sem = X->isSemanticForm() ? X : (X->getSemanticForm() ? X->getSemanticForm() : X);
      o["k"] = "ilist";
      json::Array a;
      for (auto* i : sem->inits()) a.push_back(Expr(i));
      o["e"] = std::move(a);
    } else if (auto* X = dyn_cast<CXXStdInitializerListExpr>(E)) {
      o["k"] = "stdilist"; o["e"] = Expr(X->getSubExpr());
    } else if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) {
      o["k"] = "zero";
    } else if (auto* X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      clang::Expr::EvalResult R;
      if (!E->isValueDependent() && E->EvaluateAsInt(R, C)) {
        llvm::SmallString<32> s; R.Val.getInt().toString(s, 10);
        o["k"] = "int"; o["v"] = s.str().str();
      } else { o["k"] = "unsupported"; o["cls"] = "sizeof"; }
    } else if (auto* X = dyn_cast<TypeTraitExpr>(E)) {
      o["k"] = "bool"; o["v"] = X->getValue();
    } else if (isa<PredefinedExpr>(E)) {
      o["k"] = "str"; o["v"] = "";
    } else if (auto* X = dyn_cast<OpaqueValueExpr>(E)) {
      return Expr(X->getSourceExpr());
    } else if (auto* X = dyn_cast<CXXRewrittenBinaryOperator>(E)) {
      return Expr(X->getSemanticForm());
    } else {
      o["k"] = "unsupported"; o["cls"] = E->getStmtClassName();
    }
    return std::move(o);
  }

  void Ctor(json::Object& o, const CXXConstructExpr* X) {
    auto* D = X->getConstructor();
    FnRef(o, D);
    o["args"] = Args(X->arguments());
    if (D->isCopyConstructor()) o["copy"] = true;
    if (D->isMoveConstructor()) o["move"] = true;
    if (D->isDefaultConstructor()) o["dflt"] = true;
    if (X->isElidable()) o["elide"] = true;
    if (X->isListInitialization()) o["list"] = true;
    if (X->isStdInitListInitialization()) o["stdlist"] = true;
  }
};

class V : public RecursiveASTVisitor<V> {
 public:
  V(Emitter& e) : E(e) {}
  Emitter& E;
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool TraverseDecl(Decl* D) {
    if (!D) return true;
    // Only descend into namespaces and declarations in the prefix.
    if (isa<TranslationUnitDecl>(D) || isa<NamespaceDecl>(D) || isa<LinkageSpecDecl>(D))
      return RecursiveASTVisitor<V>::TraverseDecl(D);
    if (auto* S = dyn_cast<ClassTemplateSpecializationDecl>(D)) {   // explicit instantiation in a wrapper file
      if (S->isExplicitInstantiationOrSpecialization() && E.InPrefix(S->getSpecializedTemplate()->getLocation())) {
        E.QueueRecord(S);
        for (auto* M : S->decls()) RecursiveASTVisitor<V>::TraverseDecl(M);
        return true;
      }
    }
    if (!E.InPrefix(D->getLocation())) return true;
    return RecursiveASTVisitor<V>::TraverseDecl(D);
  }
  bool VisitFunctionDecl(FunctionDecl* F) { E.Function(F); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl* R) {
    if (R->isThisDeclarationADefinition() && !R->isDependentContext() && !R->isDependentType() && !R->isLambda())
      E.QueueRecord(R);
    return true;
  }
};

class Consumer : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext& ctx) override {
    if (ctx.getDiagnostics().hasErrorOccurred()) { return; }
    Emitter e(ctx);
    V v(e);
    v.TraverseDecl(ctx.getTranslationUnitDecl());
    // functions reachable through template instantiation
    std::set<const FunctionDecl*> done;
    while (!e.pendingFns.empty()) {
      auto* f = e.pendingFns.back(); e.pendingFns.pop_back();
      if (!done.insert(f).second) continue;
      e.Function(f);
    }
    e.DrainRecords();
    json::Object o;
    json::Array fns, recs, tys;
    for (auto& kv : e.functions) if (kv.second.getAsObject()) fns.push_back(std::move(kv.second));
    for (auto& kv : e.records) recs.push_back(std::move(kv.second));
    for (auto& t : e.types) tys.push_back(std::move(t));
    o["functions"] = std::move(fns);
    o["records"] = std::move(recs);
    o["types"] = std::move(tys);
    std::error_code ec;
    llvm::raw_fd_ostream os(gOut, ec);
    os << json::Value(std::move(o)) << "\n";
  }
};
class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override {
    return std::make_unique<Consumer>();
  }
};

int main(int argc, char** argv) {
  // extract OUT PREFIX FILE -- flags...
  if (argc < 5) return 2;
  gOut = argv[1];
  gPrefix = argv[2];
  std::string file = argv[3];
  std::vector<std::string> flags;
  for (int i = 5; i < argc; i++) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {file});
  int rc = tool.run(tooling::newFrontendActionFactory<Action>().get());
  return rc;
}
