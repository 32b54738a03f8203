// mfmg-extract: serialises the type-checked, instantiated program of one
// translation unit (every function whose definition lies under one of the
// given roots) to JSON.  Purely static: nothing of the analysed code is run.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/Mangle.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>

#include <deque>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;
static std::string OutFile;

struct Extractor
{
  ASTContext &Ctx;
  SourceManager &SM;
  PrintingPolicy PP;
  ASTNameGenerator NG;

  std::deque<FunctionDecl const *> Work;
  std::unordered_set<Decl const *> Seen;
  std::unordered_map<Decl const *, int> DeclIds;
  std::unordered_map<Decl const *, int> FnIds;
  json::Array FnTable;
  std::unordered_map<std::string, int> TypeIds;
  json::Array TypeTable;
  json::Array Bodies;
  json::Array Classes;
  json::Array Globals;
  std::unordered_set<Decl const *> SeenCls;

  Extractor(ASTContext &C)
      : Ctx(C), SM(C.getSourceManager()), PP(C.getLangOpts()), NG(C)
  {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = false;
    PP.Bool = true;
    PP.SuppressInlineNamespace = true;
    PP.SuppressUnwrittenScope = true;
  }

  std::string fileOf(SourceLocation L, unsigned *line = nullptr,
                     unsigned *col = nullptr)
  {
    L = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(L, false);
    if (P.isInvalid())
      return "";
    if (line)
      *line = P.getLine();
    if (col)
      *col = P.getColumn();
    std::string f = P.getFilename();
    return f;
  }

  bool inRoots(SourceLocation L)
  {
    std::string f = fileOf(L);
    for (auto const &r : Roots)
      if (f.compare(0, r.size(), r) == 0)
        return true;
    return false;
  }

  int declId(Decl const *D)
  {
    D = D->getCanonicalDecl();
    auto it = DeclIds.find(D);
    if (it != DeclIds.end())
      return it->second;
    int id = DeclIds.size() + 1;
    DeclIds[D] = id;
    return id;
  }

  static std::string strip(std::string s) { return s; }

  int typeId(QualType T)
  {
    std::string sugar = T.getAsString(PP);
    QualType C = T.getCanonicalType();
    PrintingPolicy P2 = PP;
    P2.PrintCanonicalTypes = true;
    std::string canon = C.getAsString(P2);
    std::string key = sugar + "\x01" + canon;
    auto it = TypeIds.find(key);
    if (it != TypeIds.end())
      return it->second;
    json::Object o;
    o["s"] = json::fixUTF8(canon);
    if (sugar != canon)
      o["u"] = json::fixUTF8(sugar);
    QualType N = C.getNonReferenceType();
    if (C->isLValueReferenceType())
      o["r"] = 1;
    if (C->isRValueReferenceType())
      o["r"] = 2;
    if (N->isPointerType())
    {
      o["p"] = 1;
      if (N->getPointeeType().isConstQualified())
        o["pc"] = 1;
    }
    if (N.isConstQualified())
      o["c"] = 1;
    QualType U = N.getUnqualifiedType();
    if (U->isPointerType())
      U = U->getPointeeType().getUnqualifiedType();
    if (auto *RD = U->getAsCXXRecordDecl())
      o["cls"] = RD->getQualifiedNameAsString();
    if (N->isArithmeticType())
    {
      o["a"] = N->isFloatingType() ? "f" : N->isBooleanType() ? "b" : "i";
      if (N->isUnsignedIntegerType())
        o["us"] = 1;
      o["w"] = (int64_t)Ctx.getTypeSize(N);
    }
    if (N->isEnumeralType())
      o["en"] = 1;
    if (!N->isIncompleteType() && !N->isDependentType() && N->isObjectType() && N.isTriviallyCopyableType(Ctx))
      o["tc"] = 1;
    int id = TypeTable.size();
    TypeTable.push_back(std::move(o));
    TypeIds[key] = id;
    return id;
  }

  // sugar: does the (possibly nested) typedef chain mention given alias
  json::Array loc(SourceLocation L)
  {
    unsigned l = 0, c = 0;
    std::string f = fileOf(L, &l, &c);
    json::Array a;
    a.push_back(f);
    a.push_back((int64_t)l);
    a.push_back((int64_t)c);
    return a;
  }
  void putLoc(json::Object &o, SourceLocation L)
  {
    unsigned l = 0, c = 0;
    fileOf(L, &l, &c);
    o["l"] = (int64_t)l;
    o["c"] = (int64_t)c;
  }

  std::string clsName(CXXRecordDecl const *R)
  {
    if (R->isLambda())
    {
      unsigned l = 0, c = 0;
      std::string f = fileOf(R->getBeginLoc(), &l, &c);
      return "lambda@" + f + ":" + std::to_string(l) + ":" + std::to_string(c);
    }
    return R->getQualifiedNameAsString();
  }

  json::Array targs(TemplateArgumentList const *L)
  {
    json::Array a;
    if (!L)
      return a;
    for (auto const &A : L->asArray())
    {
      std::string s;
      llvm::raw_string_ostream os(s);
      PrintingPolicy P2 = PP;
      P2.PrintCanonicalTypes = true;
      A.print(P2, os, true);
      a.push_back(json::fixUTF8(os.str()));
    }
    return a;
  }

  int fnId(FunctionDecl const *F)
  {
    FunctionDecl const *K = F->getCanonicalDecl();
    auto it = FnIds.find(K);
    if (it != FnIds.end())
      return it->second;
    int id = FnTable.size();
    FnIds[K] = id;
    FnTable.push_back(nullptr);
    json::Object o;
    o["qn"] = F->getQualifiedNameAsString();
    o["name"] = F->getNameAsString();
    auto *M = dyn_cast<CXXMethodDecl>(F);
    bool lambda = false;
    if (M)
    {
      o["cls"] = clsName(M->getParent());
      lambda = M->getParent()->isLambda();
      if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(M->getParent()))
        o["clsT"] = targs(&S->getTemplateArgs());
      o["ct"] = typeId(Ctx.getRecordType(M->getParent()));
      if (M->isConst())
        o["const"] = 1;
      if (M->isStatic())
        o["static"] = 1;
      if (M->isVirtual())
      {
        o["virtual"] = 1;
        json::Array ov;
        for (auto *B : M->overridden_methods())
          ov.push_back(fnId(B));
        if (!ov.empty())
          o["overrides"] = std::move(ov);
        if (M->isPureVirtual())
          o["pure"] = 1;
      }
      if (isa<CXXConstructorDecl>(M))
      {
        o["kind"] = "ctor";
        auto *CD = cast<CXXConstructorDecl>(M);
        if (CD->isCopyConstructor())
          o["cpy"] = 1;
        if (CD->isMoveConstructor())
          o["mv"] = 1;
      }
      else if (isa<CXXDestructorDecl>(M))
        o["kind"] = "dtor";
      else if (isa<CXXConversionDecl>(M))
        o["kind"] = "conv";
      o["acc"] = (int)M->getAccess();
    }
    if (F->isOverloadedOperator())
      o["op"] = getOperatorSpelling(F->getOverloadedOperator());
    if (auto *TL = F->getTemplateSpecializationArgs())
      o["targs"] = targs(TL);
    json::Array ps;
    for (auto *P : F->parameters())
      ps.push_back(typeId(P->getType()));
    o["params"] = std::move(ps);
    o["ret"] = typeId(F->getReturnType());
    if (F->isInlined() )
      o["inl"] = 1;
    if (F->isDefaulted())
      o["dflt"] = 1;
    if (F->isDeleted())
      o["del"] = 1;
    if (F->isVariadic())
      o["variadic"] = 1;
    if (!F->isExternallyVisible())
      o["intern"] = 1;
    if (F->isNoReturn())
      o["noret"] = 1;
    bool templ = F->getTemplatedKind() != FunctionDecl::TK_NonTemplate;
    if (templ)
      o["templ"] = 1;
    if (F->hasAttr<WarnUnusedResultAttr>())
      o["nodiscard"] = 1;
    if (auto *A = F->getAttr<CUDAGlobalAttr>())
    {
      (void)A;
      o["kernel"] = 1;
    }
    if (F->hasAttr<CUDADeviceAttr>())
      o["dev"] = 1;
    FunctionDecl const *Def = nullptr;
    SourceLocation L = F->getLocation();
    FunctionDecl const *Pat = F->getTemplateInstantiationPattern();
    if (Pat)
      L = Pat->getLocation();
    bool rep = inRoots(L) || inRoots(F->getLocation());
    if (rep)
    {
      o["repo"] = 1;
      o["loc"] = loc(L);
      if (F->isExternallyVisible() && !lambda)
        o["key"] = NG.getName(F);
      if (F->hasBody(Def) && Def && !Def->isDependentContext())
        Work.push_back(Def);
    }
    FnTable[id] = std::move(o);
    return id;
  }

  json::Value nul() { return nullptr; }

  json::Value ex(Expr const *E)
  {
    if (!E)
      return nullptr;
    if (auto *P = dyn_cast<ParenExpr>(E))
      return ex(P->getSubExpr());
    if (auto *X = dyn_cast<ExprWithCleanups>(E))
      return ex(X->getSubExpr());
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E))
      return ex(X->getSubExpr());
    if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E))
      return ex(X->getSubExpr());
    if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E))
      return ex(X->getReplacement());
    if (auto *X = dyn_cast<ConstantExpr>(E))
      return ex(X->getSubExpr());
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E))
    {
      json::Object o;
      o["k"] = "defarg";
      o["e"] = ex(X->getExpr());
      return o;
    }
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E))
      return ex(X->getExpr());
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E))
      return ex(X->getSubExpr());
    if (auto *X = dyn_cast<ArrayInitLoopExpr>(E))
    {
      json::Object o;
      o["k"] = "arrcopy";
      return o;
    }
    if (auto *X = dyn_cast<OpaqueValueExpr>(E))
      return ex(X->getSourceExpr());
    if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E))
      return ex(X->getSemanticForm());
    if (auto *X = dyn_cast<ImplicitCastExpr>(E))
    {
      switch (X->getCastKind())
      {
      case CK_IntegralCast:
      case CK_FloatingCast:
      case CK_IntegralToFloating:
      case CK_FloatingToIntegral:
      case CK_IntegralToBoolean:
      case CK_FloatingToBoolean:
      case CK_PointerToBoolean:
      case CK_NullToPointer:
      {
        json::Object o;
        o["k"] = "icast";
        o["ck"] = X->getCastKindName();
        o["t"] = typeId(X->getType());
        o["ft"] = typeId(X->getSubExpr()->getType());
        o["e"] = ex(X->getSubExpr());
        putLoc(o, X->getExprLoc());
        return o;
      }
      default:
        return ex(X->getSubExpr());
      }
    }
    json::Object o;
    putLoc(o, E->getExprLoc());
    if (auto *X = dyn_cast<IntegerLiteral>(E))
    {
      o["k"] = "int";
      llvm::SmallString<32> s;
      X->getValue().toString(s, 10, X->getType()->isSignedIntegerType());
      o["v"] = s.str().str();
      return o;
    }
    if (auto *X = dyn_cast<FloatingLiteral>(E))
    {
      o["k"] = "flt";
      llvm::SmallString<32> s;
      X->getValue().toString(s);
      o["v"] = s.str().str();
      return o;
    }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E))
    {
      o["k"] = "bool";
      o["v"] = X->getValue();
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E))
    {
      o["k"] = "null";
      return o;
    }
    if (auto *X = dyn_cast<CharacterLiteral>(E))
    {
      o["k"] = "chr";
      o["v"] = (int64_t)X->getValue();
      return o;
    }
    if (auto *X = dyn_cast<StringLiteral>(E))
    {
      o["k"] = "str";
      o["v"] = X->isOrdinary() ? json::fixUTF8(X->getString()) : "?";
      return o;
    }
    if (auto *X = dyn_cast<PredefinedExpr>(E))
    {
      o["k"] = "str";
      o["v"] = "__func__";
      return o;
    }
    if (isa<CXXThisExpr>(E))
    {
      o["k"] = "this";
      return o;
    }
    if (auto *X = dyn_cast<DeclRefExpr>(E))
    {
      ValueDecl const *D = X->getDecl();
      o["k"] = "ref";
      o["n"] = D->getNameAsString();
      if (auto *F = dyn_cast<FunctionDecl>(D))
      {
        o["dk"] = "fn";
        o["fn"] = fnId(F);
        return o;
      }
      if (auto *EC = dyn_cast<EnumConstantDecl>(D))
      {
        o["dk"] = "enum";
        o["qn"] = EC->getQualifiedNameAsString();
        llvm::SmallString<32> s;
        EC->getInitVal().toString(s, 10);
        o["v"] = s.str().str();
        return o;
      }
      o["id"] = declId(D);
      o["t"] = typeId(D->getType());
      if (isa<BindingDecl>(D))
        o["dk"] = "binding";
      else if (isa<ParmVarDecl>(D))
        o["dk"] = "parm";
      else
      {
        o["dk"] = "var";
        if (auto *V = dyn_cast<VarDecl>(D))
        {
          if (V->hasGlobalStorage())
          {
            o["dk"] = V->isStaticLocal() ? "slocal" : "global";
            o["qn"] = V->getQualifiedNameAsString();
          }
          if ((V->isConstexpr() ||
               (V->getType().isConstQualified() &&
                V->getType()->isIntegralOrEnumerationType())) &&
              !V->getType()->isDependentType() && V->getAnyInitializer() &&
              !V->getAnyInitializer()->isValueDependent())
          {
            Expr::EvalResult R;
            if (V->getType()->isIntegralOrEnumerationType() &&
                E->EvaluateAsInt(R, Ctx))
            {
              llvm::SmallString<32> s;
              R.Val.getInt().toString(s, 10);
              o["cv"] = s.str().str();
            }
          }
        }
      }
      return o;
    }
    if (auto *X = dyn_cast<MemberExpr>(E))
    {
      o["k"] = "mem";
      ValueDecl const *D = X->getMemberDecl();
      o["n"] = D->getNameAsString();
      if (auto *F = dyn_cast<FunctionDecl>(D))
        o["fn"] = fnId(F);
      else
      {
        o["id"] = declId(D);
        o["qn"] = D->getQualifiedNameAsString();
      }
      o["t"] = typeId(D->getType());
      if (auto *V = dyn_cast<VarDecl>(D))
      {
        Expr::EvalResult R;
        if (V->getType()->isIntegralOrEnumerationType() && !E->isValueDependent() &&
            E->EvaluateAsInt(R, Ctx))
        {
          llvm::SmallString<32> s;
          R.Val.getInt().toString(s, 10);
          o["cv"] = s.str().str();
        }
        o["sm"] = 1;
      }
      if (auto *FD = dyn_cast<FieldDecl>(D))
        if (FD->isMutable())
          o["mutable"] = 1;
      if (X->isArrow())
        o["ar"] = 1;
      o["b"] = ex(X->getBase());
      return o;
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E))
    {
      o["k"] = "call";
      o["op"] = getOperatorSpelling(X->getOperator());
      o["t"] = typeId(X->getType());
      auto *F = X->getDirectCallee();
      unsigned first = 0;
      if (F)
      {
        o["fn"] = fnId(F);
        if (isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic())
        {
          o["o"] = ex(X->getArg(0));
          o["ot"] = typeId(X->getArg(0)->getType());
          first = 1;
        }
      }
      json::Array as;
      for (unsigned i = first; i < X->getNumArgs(); ++i)
        as.push_back(ex(X->getArg(i)));
      o["a"] = std::move(as);
      return o;
    }
    if (auto *X = dyn_cast<CallExpr>(E))
    {
      o["k"] = "call";
      o["t"] = typeId(X->getType());
      auto *F = X->getDirectCallee();
      if (F)
        o["fn"] = fnId(F);
      else
        o["f"] = ex(X->getCallee());
      if (auto *M = dyn_cast<CXXMemberCallExpr>(X))
      {
        if (auto *I = M->getImplicitObjectArgument())
        {
          o["o"] = ex(I);
          o["ot"] = typeId(I->getType());
        }
        if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens()))
        {
          if (ME->hasQualifier())
            o["qual"] = 1;
          if (ME->isArrow())
            o["ar"] = 1;
        }
      }
      if (auto *K = dyn_cast<CUDAKernelCallExpr>(X))
      {
        json::Array cf;
        auto *C = K->getConfig();
        for (unsigned i = 0; i < C->getNumArgs(); ++i)
          cf.push_back(ex(C->getArg(i)));
        o["launch"] = std::move(cf);
      }
      json::Array as;
      for (auto *A : X->arguments())
        as.push_back(ex(A));
      o["a"] = std::move(as);
      return o;
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E))
    {
      o["k"] = "ctor";
      o["fn"] = fnId(X->getConstructor());
      o["t"] = typeId(X->getType());
      o["a"] = json::Array();
      o["inh"] = 1;
      return o;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E))
    {
      o["k"] = "ctor";
      auto *CD = X->getConstructor();
      o["fn"] = fnId(CD);
      o["t"] = typeId(X->getType());
      if (CD->isCopyConstructor())
        o["cpy"] = 1;
      if (CD->isMoveConstructor())
        o["mv"] = 1;
      if (CD->isConvertingConstructor(false) && X->getNumArgs() == 1)
        o["cvt"] = 1;
      if (X->isListInitialization())
        o["li"] = 1;
      if (isa<CXXTemporaryObjectExpr>(X))
        o["tmp"] = 1;
      json::Array as;
      for (auto *A : X->arguments())
        as.push_back(ex(A));
      o["a"] = std::move(as);
      return o;
    }
    if (auto *X = dyn_cast<ExplicitCastExpr>(E))
    {
      o["k"] = "xcast";
      if (isa<CXXStaticCastExpr>(X))
        o["ck"] = "static";
      else if (isa<CXXConstCastExpr>(X))
        o["ck"] = "const";
      else if (isa<CXXDynamicCastExpr>(X))
        o["ck"] = "dynamic";
      else if (isa<CXXReinterpretCastExpr>(X))
        o["ck"] = "reinterpret";
      else if (isa<CXXFunctionalCastExpr>(X))
        o["ck"] = "func";
      else
        o["ck"] = "c";
      o["kind"] = X->getCastKindName();
      o["t"] = typeId(X->getTypeAsWritten());
      o["ft"] = typeId(X->getSubExpr()->getType());
      o["e"] = ex(X->getSubExpr());
      return o;
    }
    if (auto *X = dyn_cast<UnaryOperator>(E))
    {
      o["k"] = "un";
      std::string op = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix())
        op = "p" + op;
      o["op"] = op;
      o["t"] = typeId(X->getType());
      o["e"] = ex(X->getSubExpr());
      return o;
    }
    if (auto *X = dyn_cast<BinaryOperator>(E))
    {
      o["k"] = "bin";
      o["op"] = X->getOpcodeStr().str();
      o["t"] = typeId(X->getType());
      o["L"] = ex(X->getLHS());
      o["R"] = ex(X->getRHS());
      return o;
    }
    if (auto *X = dyn_cast<AbstractConditionalOperator>(E))
    {
      o["k"] = "cond";
      o["t"] = typeId(X->getType());
      o["i"] = ex(X->getCond());
      o["T"] = ex(X->getTrueExpr());
      o["F"] = ex(X->getFalseExpr());
      return o;
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E))
    {
      o["k"] = "idx";
      o["b"] = ex(X->getBase());
      o["i"] = ex(X->getIdx());
      return o;
    }
    if (auto *X = dyn_cast<InitListExpr>(E))
    {
      o["k"] = "il";
      o["t"] = typeId(X->getType());
      json::Array as;
      for (auto *I : X->inits())
        as.push_back(ex(I));
      o["a"] = std::move(as);
      return o;
    }
    if (auto *X = dyn_cast<LambdaExpr>(E))
    {
      o["k"] = "lambda";
      o["t"] = typeId(X->getType());
      json::Array cs;
      auto ci = X->capture_init_begin();
      for (auto const &C : X->captures())
      {
        json::Object c;
        if (C.capturesThis())
          c["this"] = 1;
        else if (C.capturesVariable())
        {
          c["id"] = declId(C.getCapturedVar());
          c["n"] = C.getCapturedVar()->getNameAsString();
          c["t"] = typeId(C.getCapturedVar()->getType());
          c["ref"] = C.getCaptureKind() == LCK_ByRef;
          if (auto *VD = dyn_cast<VarDecl>(C.getCapturedVar()))
            if (VD->isInitCapture())
              c["init"] = ex(VD->getInit());
        }
        cs.push_back(std::move(c));
        ++ci;
      }
      o["cap"] = std::move(cs);
      json::Array fs;
      CXXRecordDecl *R = X->getLambdaClass();
      if (auto *FT = R->getDependentLambdaCallOperator())
      {
        for (auto *S : FT->specializations())
          fs.push_back(fnId(S));
      }
      else if (X->getCallOperator())
        fs.push_back(fnId(X->getCallOperator()));
      o["fns"] = std::move(fs);
      return o;
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E))
    {
      o["k"] = "new";
      o["t"] = typeId(X->getAllocatedType());
      if (X->isArray())
      {
        o["arr"] = 1;
        if (X->getArraySize())
          o["n"] = ex(*X->getArraySize());
      }
      if (X->getNumPlacementArgs())
        o["pl"] = (int)X->getNumPlacementArgs();
      o["e"] = ex(X->getInitializer());
      return o;
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E))
    {
      o["k"] = "delete";
      if (X->isArrayForm())
        o["arr"] = 1;
      o["e"] = ex(X->getArgument());
      return o;
    }
    if (auto *X = dyn_cast<CXXThrowExpr>(E))
    {
      o["k"] = "throw";
      if (X->getSubExpr())
        o["t"] = typeId(X->getSubExpr()->getType());
      o["e"] = ex(X->getSubExpr());
      return o;
    }
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E))
    {
      o["k"] = "zero";
      o["t"] = typeId(E->getType());
      return o;
    }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E))
    {
      Expr::EvalResult R;
      if (!E->isValueDependent() && E->EvaluateAsInt(R, Ctx))
      {
        o["k"] = "int";
        llvm::SmallString<32> s;
        R.Val.getInt().toString(s, 10);
        o["v"] = s.str().str();
        o["szof"] = 1;
        return o;
      }
    }
    {
      Expr::EvalResult R;
      if (!E->isValueDependent() && !E->isTypeDependent() &&
          E->getType()->isIntegralOrEnumerationType() &&
          E->EvaluateAsInt(R, Ctx))
      {
        o["k"] = "int";
        llvm::SmallString<32> s;
        R.Val.getInt().toString(s, 10);
        o["v"] = s.str().str();
        return o;
      }
    }
    o["k"] = "?";
    o["c"] = E->getStmtClassName();
    json::Array as;
    for (auto *C : E->children())
      if (auto *CE = dyn_cast_or_null<Expr>(C))
        as.push_back(ex(CE));
    o["a"] = std::move(as);
    return o;
  }

  json::Value varDecl(VarDecl const *V)
  {
    json::Object o;
    o["id"] = declId(V);
    o["n"] = V->getNameAsString();
    o["t"] = typeId(V->getType());
    putLoc(o, V->getLocation());
    if (V->isStaticLocal())
      o["static"] = 1;
    if (V->hasGlobalStorage() && V->getTSCSpec() != TSCS_unspecified)
      o["tls"] = 1;
    if (V->isConstexpr())
      o["cx"] = 1;
    if (V->hasInit())
      o["i"] = ex(V->getInit());
    if (auto *D = dyn_cast<DecompositionDecl>(V))
    {
      json::Array bs;
      for (auto *B : D->bindings())
      {
        json::Object b;
        b["id"] = declId(B);
        b["n"] = B->getNameAsString();
        if (B->getBinding())
          if (auto *ME =
                  dyn_cast<MemberExpr>(B->getBinding()->IgnoreParenImpCasts()))
            b["f"] = ME->getMemberDecl()->getNameAsString();
        bs.push_back(std::move(b));
      }
      o["bs"] = std::move(bs);
    }
    return o;
  }

  json::Value st(Stmt const *S)
  {
    if (!S)
      return nullptr;
    json::Object o;
    putLoc(o, S->getBeginLoc());
    if (auto *X = dyn_cast<CompoundStmt>(S))
    {
      o["k"] = "block";
      json::Array a;
      for (auto *C : X->body())
        a.push_back(st(C));
      o["s"] = std::move(a);
      unsigned l = 0;
      fileOf(X->getRBracLoc(), &l);
      o["el"] = (int64_t)l;
      return o;
    }
    if (auto *X = dyn_cast<DeclStmt>(S))
    {
      o["k"] = "decl";
      json::Array a;
      for (auto *D : X->decls())
        if (auto *V = dyn_cast<VarDecl>(D))
          a.push_back(varDecl(V));
      o["v"] = std::move(a);
      return o;
    }
    if (auto *X = dyn_cast<IfStmt>(S))
    {
      if (X->isConstexpr())
      {
        auto Nd = X->getNondiscardedCase(Ctx);
        if (Nd)
        {
          if (*Nd)
            return st(*Nd);
          o["k"] = "block";
          o["s"] = json::Array();
          return o;
        }
      }
      o["k"] = "if";
      if (X->getInit())
        o["init"] = st(X->getInit());
      if (X->getConditionVariable())
        o["var"] = varDecl(X->getConditionVariable());
      o["i"] = ex(X->getCond());
      o["T"] = st(X->getThen());
      if (X->getElse())
        o["F"] = st(X->getElse());
      return o;
    }
    if (auto *X = dyn_cast<ForStmt>(S))
    {
      o["k"] = "for";
      o["init"] = st(X->getInit());
      o["i"] = ex(X->getCond());
      if (X->getInc())
        o["inc"] = ex(X->getInc());
      o["b"] = st(X->getBody());
      return o;
    }
    if (auto *X = dyn_cast<WhileStmt>(S))
    {
      o["k"] = "while";
      o["i"] = ex(X->getCond());
      if (X->getConditionVariable())
        o["var"] = varDecl(X->getConditionVariable());
      o["b"] = st(X->getBody());
      return o;
    }
    if (auto *X = dyn_cast<DoStmt>(S))
    {
      o["k"] = "do";
      o["i"] = ex(X->getCond());
      o["b"] = st(X->getBody());
      return o;
    }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S))
    {
      o["k"] = "rfor";
      o["v"] = varDecl(X->getLoopVariable());
      o["r"] = ex(X->getRangeInit());
      o["rt"] = typeId(X->getRangeInit()->getType());
      o["b"] = st(X->getBody());
      return o;
    }
    if (auto *X = dyn_cast<ReturnStmt>(S))
    {
      o["k"] = "ret";
      o["e"] = ex(X->getRetValue());
      return o;
    }
    if (isa<BreakStmt>(S))
    {
      o["k"] = "break";
      return o;
    }
    if (isa<ContinueStmt>(S))
    {
      o["k"] = "continue";
      return o;
    }
    if (isa<NullStmt>(S))
    {
      o["k"] = "block";
      o["s"] = json::Array();
      return o;
    }
    if (auto *X = dyn_cast<SwitchStmt>(S))
    {
      o["k"] = "switch";
      o["i"] = ex(X->getCond());
      o["b"] = st(X->getBody());
      return o;
    }
    if (auto *X = dyn_cast<CaseStmt>(S))
    {
      o["k"] = "case";
      o["i"] = ex(X->getLHS());
      o["b"] = st(X->getSubStmt());
      return o;
    }
    if (auto *X = dyn_cast<DefaultStmt>(S))
    {
      o["k"] = "default";
      o["b"] = st(X->getSubStmt());
      return o;
    }
    if (auto *X = dyn_cast<CXXTryStmt>(S))
    {
      o["k"] = "try";
      o["b"] = st(X->getTryBlock());
      json::Array hs;
      for (unsigned i = 0; i < X->getNumHandlers(); ++i)
      {
        json::Object h;
        if (X->getHandler(i)->getExceptionDecl())
          h["v"] = varDecl(X->getHandler(i)->getExceptionDecl());
        h["b"] = st(X->getHandler(i)->getHandlerBlock());
        hs.push_back(std::move(h));
      }
      o["h"] = std::move(hs);
      return o;
    }
    if (auto *X = dyn_cast<AttributedStmt>(S))
      return st(X->getSubStmt());
    if (auto *X = dyn_cast<LabelStmt>(S))
    {
      o["k"] = "label";
      o["b"] = st(X->getSubStmt());
      return o;
    }
    if (auto *X = dyn_cast<Expr>(S))
    {
      o["k"] = "expr";
      o["e"] = ex(X);
      return o;
    }
    o["k"] = "?";
    o["c"] = S->getStmtClassName();
    return o;
  }

  void emitFn(FunctionDecl const *F)
  {
    if (F->isDependentContext() || F->isInvalidDecl())
      return;
    if (!F->doesThisDeclarationHaveABody() || !F->getBody())
      return;
    if (!Seen.insert(F->getCanonicalDecl()).second)
      return;
    json::Object o;
    o["fn"] = fnId(F);
    unsigned l = 0;
    o["file"] = fileOf(F->getLocation(), &l);
    o["l"] = (int64_t)l;
    if (SM.isInMainFile(SM.getExpansionLoc(F->getLocation())))
      o["main"] = 1;
    json::Array ps;
    for (auto *P : F->parameters())
      ps.push_back(varDecl(P));
    o["params"] = std::move(ps);
    if (auto *C = dyn_cast<CXXConstructorDecl>(F))
    {
      json::Array is;
      for (auto *I : C->inits())
      {
        json::Object i;
        if (I->isAnyMemberInitializer())
        {
          i["f"] = I->getAnyMember()->getNameAsString();
          i["id"] = declId(I->getAnyMember());
          i["t"] = typeId(I->getAnyMember()->getType());
        }
        else if (I->isBaseInitializer())
          i["base"] = typeId(QualType(I->getBaseClass(), 0));
        else
          i["deleg"] = 1;
        i["w"] = I->isWritten();
        i["e"] = ex(I->getInit());
        is.push_back(std::move(i));
      }
      o["inits"] = std::move(is);
    }
    o["b"] = st(F->getBody());
    Bodies.push_back(std::move(o));
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      emitCls(M->getParent());
  }

  void emitCls(CXXRecordDecl const *R)
  {
    if (!R || !R->hasDefinition())
      return;
    R = R->getDefinition();
    if (R->isDependentContext() || R->isInvalidDecl())
      return;
    if (!SeenCls.insert(R->getCanonicalDecl()).second)
      return;
    json::Object o;
    o["n"] = clsName(R);
    if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R))
    {
      o["T"] = targs(&S->getTemplateArgs());
    }
    o["t"] = typeId(Ctx.getRecordType(R));
    o["loc"] = loc(R->getLocation());
    if (R->isLambda())
      o["lambda"] = 1;
    if (R->isAbstract())
      o["abs"] = 1;
    if (R->isPolymorphic())
      o["poly"] = 1;
    json::Array bs;
    for (auto const &B : R->bases())
    {
      json::Object b;
      b["t"] = typeId(B.getType());
      b["acc"] = (int)B.getAccessSpecifier();
      bs.push_back(std::move(b));
      if (auto *BR = B.getType()->getAsCXXRecordDecl())
        if (inRoots(BR->getLocation()))
          emitCls(BR);
    }
    o["bases"] = std::move(bs);
    json::Array fs;
    for (auto *F : R->fields())
    {
      json::Object f;
      f["n"] = F->getNameAsString();
      f["id"] = declId(F);
      f["t"] = typeId(F->getType());
      f["acc"] = (int)F->getAccess();
      if (F->isMutable())
        f["mutable"] = 1;
      if (F->getInClassInitializer())
        f["init"] = 1;
      putLoc(f, F->getLocation());
      fs.push_back(std::move(f));
    }
    o["fields"] = std::move(fs);
    json::Array ms;
    for (auto *M : R->methods())
      if (!R->isLambda())
        ms.push_back(fnId(M));
    o["methods"] = std::move(ms);
    json::Array sv;
    for (auto *D : R->decls())
      if (auto *V = dyn_cast<VarDecl>(D))
        sv.push_back(varDecl(V));
    if (!sv.empty())
      o["statics"] = std::move(sv);
    Classes.push_back(std::move(o));
  }
};

struct V : RecursiveASTVisitor<V>
{
  Extractor &X;
  V(Extractor &x) : X(x) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  // Only descend in declarations that can contain repository code.
  bool VisitFunctionDecl(FunctionDecl *F)
  {
    if (F->isDependentContext() || !F->doesThisDeclarationHaveABody())
      return true;
    SourceLocation L = F->getLocation();
    if (!X.inRoots(L))
      return true;
    X.Work.push_back(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R)
  {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext())
      return true;
    if (X.inRoots(R->getLocation()))
      X.emitCls(R);
    return true;
  }
  bool VisitVarDecl(VarDecl *VD)
  {
    if (!VD->hasGlobalStorage() || VD->getType()->isDependentType() ||
        VD->isStaticDataMember() || VD->getDeclContext()->isDependentContext())
      return true;
    if (!X.inRoots(VD->getLocation()))
      return true;
    json::Object o;
    o["qn"] = VD->getQualifiedNameAsString();
    o["v"] = X.varDecl(VD);
    o["loc"] = X.loc(VD->getLocation());
    if (VD->isStaticLocal())
      o["slocal"] = 1;
    X.Globals.push_back(std::move(o));
    return true;
  }
};

struct Consumer : ASTConsumer
{
  CompilerInstance &CI;
  Consumer(CompilerInstance &ci) : CI(ci) {}
  void HandleTranslationUnit(ASTContext &Ctx) override
  {
    Extractor X(Ctx);
    V v(X);
    v.TraverseDecl(Ctx.getTranslationUnitDecl());
    while (!X.Work.empty())
    {
      auto *F = X.Work.front();
      X.Work.pop_front();
      X.emitFn(F);
    }
    json::Object top;
    top["errors"] = (int64_t)CI.getDiagnostics().hasErrorOccurred();
    auto &SM = Ctx.getSourceManager();
    if (auto FE = SM.getFileEntryRefForID(SM.getMainFileID()))
      top["main"] = FE->getName().str();
    std::set<std::string> fs;
    for (auto it = SM.fileinfo_begin(); it != SM.fileinfo_end(); ++it)
    {
      std::string n = it->first.getName().str();
      for (auto const &r : Roots)
        if (n.compare(0, r.size(), r) == 0)
          fs.insert(n);
    }
    json::Array files;
    for (auto &f : fs)
      files.push_back(f);
    top["files"] = std::move(files);
    top["types"] = std::move(X.TypeTable);
    top["fns"] = std::move(X.FnTable);
    top["bodies"] = std::move(X.Bodies);
    top["classes"] = std::move(X.Classes);
    top["globals"] = std::move(X.Globals);
    std::error_code EC;
    llvm::raw_fd_ostream os(OutFile, EC);
    os << json::Value(std::move(top)) << "\n";
  }
};

struct Action : ASTFrontendAction
{
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI,
                                                 llvm::StringRef) override
  {
    return std::make_unique<Consumer>(CI);
  }
};

// usage: mfmg_extract OUT.json ROOT[:ROOT...] FILE -- FLAGS...
int main(int argc, char const **argv)
{
  if (argc < 5)
  {
    llvm::errs() << "usage: mfmg_extract OUT ROOT[:ROOT] FILE -- FLAGS\n";
    return 2;
  }
  OutFile = argv[1];
  std::string r = argv[2];
  size_t p = 0;
  while (p <= r.size())
  {
    size_t q = r.find(':', p);
    if (q == std::string::npos)
      q = r.size();
    Roots.push_back(r.substr(p, q - p));
    p = q + 1;
  }
  std::string file = argv[3];
  std::vector<std::string> flags;
  for (int i = 5; i < argc; ++i)
    flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {file});
  tool.setPrintErrorMessage(true);
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
