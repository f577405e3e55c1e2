// cxx2ir: dumps the function bodies of /repo (resolved AST, from the compiler's own front end) as compact JSON.
// usage: cxx2ir -roots=REGEX [-keep=PATHREGEX] -o OUT.json  file.cpp -- <flags>
// Roots: functions whose qualified name matches REGEX.  Every function a root (transitively) calls and whose
// definition is visible and lies in a file matching -keep (default /repo/src/) is dumped too.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Sema/Sema.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <regex>
#include <set>
using namespace clang;
namespace json = llvm::json;
static llvm::cl::OptionCategory Cat("cxx2ir");
static llvm::cl::opt<std::string> Roots("roots", llvm::cl::cat(Cat), llvm::cl::init(".*"));
static llvm::cl::opt<std::string> Inst("inst", llvm::cl::cat(Cat), llvm::cl::init("^$"));
static llvm::cl::opt<std::string> Keep("keep", llvm::cl::cat(Cat), llvm::cl::init("/repo/src/"));
static llvm::cl::opt<std::string> Out("o", llvm::cl::cat(Cat), llvm::cl::init("-"));

static std::string apstr(const llvm::APSInt&v){ llvm::SmallString<32> s; v.toString(s,10); return s.str().str(); }
namespace {
struct Dumper {
  ASTContext &C; Sema *S; SourceManager &SM; PrintingPolicy PP; std::unique_ptr<MangleContext> MC;
  std::regex instRe{std::string(Inst)}; std::regex rootRe, keepRe;
  std::map<std::string,int> typeIds; json::Array types;
  std::map<std::string,bool> recDone; json::Object records;
  std::set<const FunctionDecl*> seen; std::deque<const FunctionDecl*> work; json::Array funcs; json::Object externs;
  std::map<const Decl*,int> varIds; int nextVar=0;
  std::map<std::string,bool> enumDone; json::Object enums; json::Object globals;
  Dumper(ASTContext &c, Sema *s):C(c),S(s),SM(c.getSourceManager()),PP(c.getPrintingPolicy()),MC(c.createMangleContext()),rootRe(Roots),keepRe(Keep){
    PP.SuppressTagKeyword=true; PP.FullyQualifiedName=true; PP.Bool=true; PP.SuppressInlineNamespace=true; }
  std::string file(SourceLocation L){ auto P=SM.getPresumedLoc(SM.getExpansionLoc(L)); return P.isValid()?P.getFilename():""; }
  int line(SourceLocation L){ return SM.getExpansionLineNumber(L); }
  bool kept(const Decl*D){ return std::regex_search(file(D->getLocation()),keepRe); }
  std::string qn(const NamedDecl*D){ std::string s; llvm::raw_string_ostream o(s); D->printQualifiedName(o,PP); o.flush();
    // strip inline namespaces of libstdc++
    for(auto ns:{"__cxx11::","__1::","_V2::"}){ size_t p; while((p=s.find(ns))!=std::string::npos) s.erase(p,strlen(ns)); }
    return s; }
  std::string recName(const CXXRecordDecl*R){ std::string s=C.getRecordType(R).getCanonicalType().getAsString(PP);
    size_t p; while((p=s.find("__cxx11::"))!=std::string::npos) s.erase(p,9); return s; }
  int addType(const std::string&key, json::Object o){ auto it=typeIds.find(key); if(it!=typeIds.end()) return it->second; int id=types.size(); typeIds[key]=id; types.push_back(std::move(o)); return id; }
  int ty(QualType Q){
    if(Q.isNull()) return addType("<null>",json::Object{{"k","other"},{"s","<null>"}});
    Q=Q.getCanonicalType(); bool isc=Q.isConstQualified(); Q=Q.getUnqualifiedType();
    std::string key=Q.getAsString(PP); { size_t p; while((p=key.find("__cxx11::"))!=std::string::npos) key.erase(p,9);} 
    std::string ck=(isc?"const ":"")+key+"@"+std::to_string((uintptr_t)Q.getTypePtr());
    auto it=typeIds.find(ck); if(it!=typeIds.end()) return it->second;
    json::Object o; o["s"]=key; if(isc) o["const"]=true;
    const Type*T=Q.getTypePtr();
    if(T->isVoidType()) o["k"]="void";
    else if(T->isBooleanType()) o["k"]="bool";
    else if(T->isEnumeralType()){ o["k"]="enum"; }
    else if(T->isIntegerType()){ o["k"]="int"; o["bits"]=(int)C.getTypeSize(Q); o["signed"]=T->isSignedIntegerType(); if(T->isAnyCharacterType()) o["char"]=true; }
    else if(T->isRealFloatingType()){ o["k"]="real"; o["bits"]=(int)C.getTypeSize(Q);}
    else if(T->isPointerType()){ o["k"]="ptr"; o["to"]=ty(T->getPointeeType()); }
    else if(T->isReferenceType()){ o["k"]="ref"; o["to"]=ty(T->getPointeeType()); if(T->isRValueReferenceType()) o["rv"]=true; }
    else if(auto*A=C.getAsConstantArrayType(Q)){ o["k"]="arr"; o["elem"]=ty(A->getElementType()); o["n"]=(int64_t)A->getSize().getZExtValue(); }
    else if(auto*A=C.getAsArrayType(Q)){ o["k"]="arr"; o["elem"]=ty(A->getElementType()); }
    else if(T->isFunctionType()) o["k"]="func";
    else if(auto*R=T->getAsCXXRecordDecl()){
      o["k"]="rec"; o["name"]=qn(R);
      // reserve the id first: recursive types
      int id=types.size(); typeIds[ck]=id; types.push_back(nullptr);
      json::Array args; std::function<void(const TemplateArgument&)> add=[&](const TemplateArgument&A){
        if(A.getKind()==TemplateArgument::Type) args.push_back(ty(A.getAsType()));
        else if(A.getKind()==TemplateArgument::Integral) args.push_back(json::Object{{"int",(int64_t)A.getAsIntegral().getLimitedValue()}});
        else if(A.getKind()==TemplateArgument::Pack) for(auto&x:A.pack_elements()) add(x);
        else args.push_back(nullptr);};
      if(auto*SP=dyn_cast<ClassTemplateSpecializationDecl>(R)) for(auto&A:SP->getTemplateArgs().asArray()) add(A);
      o["args"]=std::move(args); types[id]=std::move(o);
      record(R,key); return id; }
    else { o["k"]="other"; o["cls"]=T->getTypeClassName(); }
    int id=types.size(); typeIds[ck]=id; types.push_back(std::move(o)); return id;
  }
  void record(const CXXRecordDecl*R,const std::string&key){
    if(recDone.count(key)) return; recDone[key]=true; R=R->getDefinition(); if(!R) return;
    if(!kept(R)) return;
    json::Object o; o["name"]=qn(R); json::Array b,f;
    for(auto&B:R->bases()){ if(auto*BR=B.getType()->getAsCXXRecordDecl()){ int t=ty(B.getType()); b.push_back(json::Object{{"t",t},{"virtual",B.isVirtual()}}); (void)BR; } }
    for(auto*F:R->fields()){ json::Object fo{{"name",F->getNameAsString()},{"t",ty(F->getType())}}; if(F->hasInClassInitializer()&&F->getInClassInitializer()) fo["init"]=expr(F->getInClassInitializer()); f.push_back(std::move(fo)); }
    o["bases"]=std::move(b); o["fields"]=std::move(f); o["line"]=line(R->getLocation()); o["file"]=file(R->getLocation()); o["poly"]=R->isPolymorphic();
    json::Array ov; for(auto*M:R->methods()) if(M->isVirtual()){ ov.push_back(json::Object{{"n",M->getNameAsString()},{"id",fid(M)},{"pure",M->isPureVirtual()}}); }
    o["virtuals"]=std::move(ov);
    records[key]=std::move(o);
  }
  std::string fid(const FunctionDecl*F){ std::string s; llvm::raw_string_ostream o(s); 
    if(auto*D=dyn_cast<CXXConstructorDecl>(F)) MC->mangleName(GlobalDecl(D,Ctor_Complete),o);
    else if(auto*D=dyn_cast<CXXDestructorDecl>(F)) MC->mangleName(GlobalDecl(D,Dtor_Complete),o);
    else if(MC->shouldMangleDeclName(F)) MC->mangleName(F,o); else o<<qn(F); o.flush(); return s; }
  int var(const Decl*D){ auto it=varIds.find(D); if(it!=varIds.end()) return it->second; return varIds[D]=nextVar++; }
  std::string callee(const FunctionDecl*F){ // registers F and returns its id
    const FunctionDecl*Def=nullptr; std::string id=fid(F);
    if(F->isTemplateInstantiation()||F->getTemplateInstantiationPattern()){
      const FunctionDecl*P=F->getTemplateInstantiationPattern(); if(P&&kept(P)&&S&&!F->isDefined(Def)){ S->InstantiateFunctionDefinition(F->getLocation(),const_cast<FunctionDecl*>(F),true,true); } }
    if(F->isDefined(Def)&&Def&&kept(Def)){ if(seen.insert(Def).second) work.push_back(Def); }
    else if(!externs.get(id)){ json::Object o{{"name",qn(F)},{"file",file(F->getLocation())}}; 
      if(kept(F)){ json::Array ps; for(auto*p:F->parameters()) ps.push_back(json::Object{{"name",p->getNameAsString()},{"t",ty(p->getType())}}); o["params"]=std::move(ps); o["ret"]=ty(F->getReturnType()); if(auto*M=dyn_cast<CXXMethodDecl>(F)){o["cls"]=recName(M->getParent()); o["virtual"]=M->isVirtual(); o["static"]=M->isStatic();} }
      externs[id]=std::move(o);} 
    return id; }
  json::Value exprs(llvm::ArrayRef<const Expr*> A){ json::Array r; for(auto*e:A) r.push_back(expr(e)); return r; }
  template<class R> json::Array list(R rng){ json::Array r; for(auto*e:rng) r.push_back(expr(e)); return r; }
  json::Value declref(const ValueDecl*D,QualType Q){
    json::Object o; o["t"]=ty(Q);
    if(auto*E=dyn_cast<EnumConstantDecl>(D)){ o["k"]="int"; o["v"]=apstr(E->getInitVal()); o["en"]=qn(E); return o; }
    if(auto*F=dyn_cast<FunctionDecl>(D)){ o["k"]="fn"; o["id"]=callee(F); o["n"]=qn(F); return o; }
    if(auto*V=dyn_cast<VarDecl>(D)){
      if(V->hasGlobalStorage()&&!V->isStaticLocal()){ o["k"]="gvar"; o["n"]=qn(V); 
        Expr::EvalResult R; const VarDecl*DV; const Expr*I=V->getAnyInitializer(DV);
        if(I&&!I->isValueDependent()){ QualType VT=V->getType().getCanonicalType(); std::string g=qn(V);
          if(!globals.get(g)){ globals[g]=json::Object{}; json::Object go{{"t",ty(V->getType())},{"const",VT.isConstQualified()}}; if(I->EvaluateAsRValue(R,C)&&R.Val.isInt()) go["int"]=apstr(R.Val.getInt()); go["init"]=expr(I); globals[g]=std::move(go);} }
        return o; }
      o["k"]="var"; o["id"]=var(V); o["n"]=V->getNameAsString(); if(isa<ParmVarDecl>(V)) o["param"]=true; if(V->isStaticLocal()) o["static"]=true; return o; }
    if(auto*F=dyn_cast<FieldDecl>(D)){ o["k"]="fieldref"; o["n"]=F->getNameAsString(); return o; }
    if(auto*B=dyn_cast<BindingDecl>(D)){ o["k"]="unsupported"; o["s"]="binding"; (void)B; return o; }
    o["k"]="unsupported"; o["s"]=std::string("declref ")+D->getDeclKindName(); return o;
  }
  json::Value expr(const Expr*E){
    if(!E) return nullptr;
    // transparent nodes
    for(;;){
      if(auto*X=dyn_cast<ParenExpr>(E)) E=X->getSubExpr();
      else if(auto*X=dyn_cast<ExprWithCleanups>(E)) E=X->getSubExpr();
      else if(auto*X=dyn_cast<CXXBindTemporaryExpr>(E)) E=X->getSubExpr();
      else if(auto*X=dyn_cast<ConstantExpr>(E)) E=X->getSubExpr();
      else if(auto*X=dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E=X->getReplacement();
      else if(auto*X=dyn_cast<CXXDefaultArgExpr>(E)) E=X->getExpr();
      else if(auto*X=dyn_cast<CXXDefaultInitExpr>(E)) E=X->getExpr();
      else break; }
    json::Object o; o["t"]=ty(E->getType()); if(E->isLValue()) o["lv"]=true; o["l"]=line(E->getExprLoc());
    if(auto*X=dyn_cast<MaterializeTemporaryExpr>(E)){ o["k"]="mat"; o["e"]=expr(X->getSubExpr()); return o; }
    if(auto*X=dyn_cast<IntegerLiteral>(E)){ o["k"]="int"; llvm::SmallString<32> s; X->getValue().toString(s,10,X->getType()->isSignedIntegerType()); o["v"]=s.str().str(); return o; }
    if(auto*X=dyn_cast<CharacterLiteral>(E)){ o["k"]="int"; o["v"]=std::to_string(X->getValue()); return o; }
    if(auto*X=dyn_cast<CXXBoolLiteralExpr>(E)){ o["k"]="bool"; o["v"]=X->getValue(); return o; }
    if(auto*X=dyn_cast<FloatingLiteral>(E)){ o["k"]="real"; llvm::SmallString<64> s; X->getValue().toString(s,0,0); 
       // the source spelling is the exact decimal the programmer wrote
       SourceLocation B=SM.getSpellingLoc(X->getLocation()); llvm::SmallString<64> buf; bool inv=false; auto sp=Lexer::getSpelling(B,buf,SM,C.getLangOpts(),&inv); o["v"]=s.str().str(); if(!inv) o["sp"]=sp.str(); return o; }
    if(auto*X=dyn_cast<StringLiteral>(E)){ o["k"]="str"; if(X->getCharByteWidth()==1) o["v"]=json::fixUTF8(X->getString()); return o; }
    if(isa<PredefinedExpr>(E)){ o["k"]="str"; o["v"]="__func__"; return o; }
    if(isa<CXXNullPtrLiteralExpr>(E)||isa<GNUNullExpr>(E)){ o["k"]="null"; return o; }
    if(isa<CXXThisExpr>(E)){ o["k"]="this"; return o; }
    if(auto*X=dyn_cast<DeclRefExpr>(E)){ auto v=declref(X->getDecl(),E->getType()); if(auto*vo=v.getAsObject()){ (*vo)["l"]=line(E->getExprLoc()); if(E->isLValue())(*vo)["lv"]=true; } return v; }
    if(auto*X=dyn_cast<MemberExpr>(E)){
      auto*D=X->getMemberDecl();
      if(auto*F=dyn_cast<FieldDecl>(D)){ o["k"]="field"; o["n"]=F->getNameAsString(); o["cls"]=recName(cast<CXXRecordDecl>(F->getParent())); o["b"]=expr(X->getBase()); o["arrow"]=X->isArrow(); return o; }
      if(isa<VarDecl>(D)) return declref(D,E->getType());
      if(isa<EnumConstantDecl>(D)) return declref(D,E->getType());
      o["k"]="unsupported"; o["s"]="member"; return o; }
    if(auto*X=dyn_cast<UnaryOperator>(E)){ o["k"]="un"; o["op"]=UnaryOperator::getOpcodeStr(X->getOpcode()).str(); if(X->isPostfix()) o["post"]=true; o["e"]=expr(X->getSubExpr()); return o; }
    if(auto*X=dyn_cast<CompoundAssignOperator>(E)){ o["k"]="cas"; o["op"]=BinaryOperator::getOpcodeStr(X->getOpcode()).drop_back().str(); o["ct"]=ty(X->getComputationResultType()); o["clt"]=ty(X->getComputationLHSType()); o["a"]=expr(X->getLHS()); o["b"]=expr(X->getRHS()); return o; }
    if(auto*X=dyn_cast<BinaryOperator>(E)){ o["k"]=X->isAssignmentOp()?"as":"bin"; o["op"]=BinaryOperator::getOpcodeStr(X->getOpcode()).str(); o["a"]=expr(X->getLHS()); o["b"]=expr(X->getRHS()); return o; }
    if(auto*X=dyn_cast<ConditionalOperator>(E)){ o["k"]="cond"; o["c"]=expr(X->getCond()); o["a"]=expr(X->getTrueExpr()); o["b"]=expr(X->getFalseExpr()); return o; }
    if(auto*X=dyn_cast<CastExpr>(E)){ o["k"]="cast"; o["ck"]=X->getCastKindName(); o["e"]=expr(X->getSubExpr());
      if(X->getCastKind()==CK_UserDefinedConversion||X->getCastKind()==CK_ConstructorConversion||X->getCastKind()==CK_NoOp) {}
      return o; }
    if(auto*X=dyn_cast<CXXOperatorCallExpr>(E)){ o["k"]="call"; o["opcall"]=getOperatorSpelling(X->getOperator()); if(auto*F=X->getDirectCallee()){ o["f"]=callee(F); o["n"]=qn(F); if(auto*M=dyn_cast<CXXMethodDecl>(F)) {o["mem"]=true; o["cls"]=recName(M->getParent());} } o["args"]=list(X->arguments()); return o; }
    if(auto*X=dyn_cast<CXXMemberCallExpr>(E)){ o["k"]="mcall"; auto*M=X->getMethodDecl(); if(M){ o["f"]=callee(M); o["n"]=qn(M); o["cls"]=recName(M->getParent()); bool virt=M->isVirtual(); if(auto*ME=dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())){ if(ME->hasQualifier()) virt=false; o["arrow"]=ME->isArrow(); } o["virtual"]=virt; } else o["k"]="unsupported"; o["b"]=expr(X->getImplicitObjectArgument()); o["args"]=list(X->arguments()); return o; }
    if(auto*X=dyn_cast<CallExpr>(E)){ o["k"]="call"; if(auto*F=X->getDirectCallee()){ o["f"]=callee(F); o["n"]=qn(F); if(auto*M=dyn_cast<CXXMethodDecl>(F)) o["cls"]=recName(M->getParent()); } else { o["ce"]=expr(X->getCallee()); } o["args"]=list(X->arguments()); return o; }
    if(auto*X=dyn_cast<CXXConstructExpr>(E)){ o["k"]="ctor"; auto*K=X->getConstructor(); o["f"]=callee(K); o["cls"]=recName(K->getParent()); o["n"]=qn(K->getParent()); o["args"]=list(X->arguments()); if(K->isCopyOrMoveConstructor()) o["copy"]=true; if(K->isDefaultConstructor()) o["def"]=true; if(K->isTrivial()) o["triv"]=true; if(X->requiresZeroInitialization()) o["zero"]=true; return o; }
    if(auto*X=dyn_cast<CXXNewExpr>(E)){ o["k"]="new"; o["nt"]=ty(X->getAllocatedType()); if(X->isArray()&&X->getArraySize()) o["n"]=expr(*X->getArraySize()); if(X->getInitializer()) o["init"]=expr(X->getInitializer()); return o; }
    if(auto*X=dyn_cast<CXXDeleteExpr>(E)){ o["k"]="delete"; o["e"]=expr(X->getArgument()); o["arr"]=X->isArrayForm(); return o; }
    if(auto*X=dyn_cast<ArraySubscriptExpr>(E)){ o["k"]="sub"; o["a"]=expr(X->getBase()); o["i"]=expr(X->getIdx()); return o; }
    if(auto*X=dyn_cast<InitListExpr>(E)){ o["k"]="init"; o["a"]=list(X->inits()); return o; }
    if(isa<CXXScalarValueInitExpr>(E)||isa<ImplicitValueInitExpr>(E)){ o["k"]="zero"; return o; }
    if(auto*X=dyn_cast<UnaryExprOrTypeTraitExpr>(E)){ Expr::EvalResult R; if(X->EvaluateAsInt(R,C)){ o["k"]="int"; o["v"]=apstr(R.Val.getInt()); return o; } }
    if(auto*X=dyn_cast<CXXThrowExpr>(E)){ o["k"]="throw"; o["e"]=expr(X->getSubExpr()); return o; }
    if(auto*X=dyn_cast<CXXStdInitializerListExpr>(E)){ o["k"]="initlist"; o["e"]=expr(X->getSubExpr()); return o; }
    if(auto*X=dyn_cast<TypeTraitExpr>(E)){ o["k"]="bool"; o["v"]=X->getValue(); return o; }
    if(auto*X=dyn_cast<LambdaExpr>(E)){ o["k"]="unsupported"; o["s"]="lambda"; (void)X; return o; }
    o["k"]="unsupported"; o["s"]=E->getStmtClassName(); return o;
  }
  json::Value vardecl(const VarDecl*V){ json::Object o; o["id"]=var(V); o["n"]=V->getNameAsString(); o["t"]=ty(V->getType()); if(V->hasInit()) o["init"]=expr(V->getInit()); if(V->isStaticLocal()) o["static"]=true; return o; }
  json::Value stmt(const Stmt*St){
    if(!St) return nullptr; json::Object o; o["l"]=line(St->getBeginLoc());
    if(auto*X=dyn_cast<CompoundStmt>(St)){ o["k"]="block"; json::Array b; for(auto*s:X->body()) b.push_back(stmt(s)); o["b"]=std::move(b); o["le"]=line(X->getRBracLoc()); return o; }
    if(auto*X=dyn_cast<DeclStmt>(St)){ o["k"]="decl"; json::Array b; for(auto*d:X->decls()){ if(auto*V=dyn_cast<VarDecl>(d)) b.push_back(vardecl(V)); } o["d"]=std::move(b); return o; }
    if(auto*X=dyn_cast<IfStmt>(St)){ o["k"]="if"; if(X->getInit()) o["init"]=stmt(X->getInit()); if(X->getConditionVariable()) o["cv"]=vardecl(X->getConditionVariable()); o["c"]=expr(X->getCond()); o["a"]=stmt(X->getThen()); o["b"]=stmt(X->getElse()); return o; }
    if(auto*X=dyn_cast<ForStmt>(St)){ o["k"]="for"; o["init"]=stmt(X->getInit()); o["c"]=X->getCond()?expr(X->getCond()):json::Value(nullptr); o["inc"]=X->getInc()?expr(X->getInc()):json::Value(nullptr); o["b"]=stmt(X->getBody()); return o; }
    if(auto*X=dyn_cast<WhileStmt>(St)){ o["k"]="while"; o["c"]=expr(X->getCond()); o["b"]=stmt(X->getBody()); return o; }
    if(auto*X=dyn_cast<DoStmt>(St)){ o["k"]="do"; o["c"]=expr(X->getCond()); o["b"]=stmt(X->getBody()); return o; }
    if(auto*X=dyn_cast<CXXForRangeStmt>(St)){ o["k"]="range"; o["r"]=expr(X->getRangeInit()); o["v"]=vardecl(X->getLoopVariable()); o["b"]=stmt(X->getBody()); return o; }
    if(auto*X=dyn_cast<ReturnStmt>(St)){ o["k"]="ret"; if(X->getRetValue()) o["e"]=expr(X->getRetValue()); return o; }
    if(isa<BreakStmt>(St)){ o["k"]="break"; return o; }
    if(isa<ContinueStmt>(St)){ o["k"]="continue"; return o; }
    if(isa<NullStmt>(St)){ o["k"]="nop"; return o; }
    if(auto*X=dyn_cast<SwitchStmt>(St)){ o["k"]="switch"; o["c"]=expr(X->getCond()); o["b"]=stmt(X->getBody()); return o; }
    if(auto*X=dyn_cast<CaseStmt>(St)){ o["k"]="case"; Expr::EvalResult R; if(X->getLHS()->EvaluateAsInt(R,C)) o["v"]=apstr(R.Val.getInt()); o["b"]=stmt(X->getSubStmt()); return o; }
    if(auto*X=dyn_cast<DefaultStmt>(St)){ o["k"]="default"; o["b"]=stmt(X->getSubStmt()); return o; }
    if(auto*X=dyn_cast<CXXTryStmt>(St)){ o["k"]="try"; o["b"]=stmt(X->getTryBlock()); json::Array h; for(unsigned i=0;i<X->getNumHandlers();i++){ auto*H=X->getHandler(i); json::Object ho; ho["b"]=stmt(H->getHandlerBlock()); if(H->getExceptionDecl()){ho["v"]=vardecl(H->getExceptionDecl()); } h.push_back(std::move(ho)); } o["h"]=std::move(h); return o; }
    if(auto*X=dyn_cast<AttributedStmt>(St)) return stmt(X->getSubStmt());
    if(auto*X=dyn_cast<Expr>(St)){ o["k"]="expr"; o["e"]=expr(X); return o; }
    o["k"]="unsupported"; o["s"]=St->getStmtClassName(); return o;
  }
  void dumpFunc(const FunctionDecl*F){
    if(F->isDependentContext()) return; json::Object o; o["id"]=fid(F); o["n"]=qn(F); o["file"]=file(F->getLocation()); o["l"]=line(F->getLocation()); o["le"]=line(F->getEndLoc()); o["ret"]=ty(F->getReturnType());
    json::Array ps; for(auto*p:F->parameters()) ps.push_back(json::Object{{"id",var(p)},{"n",p->getNameAsString()},{"t",ty(p->getType())}}); o["params"]=std::move(ps);
    if(auto*TA=F->getTemplateSpecializationArgs()){ std::string s; llvm::raw_string_ostream os(s); printTemplateArgumentList(os,TA->asArray(),PP); os.flush(); o["targs"]=s; }
    if(auto*M=dyn_cast<CXXMethodDecl>(F)){ o["cls"]=recName(M->getParent()); ty(C.getRecordType(M->getParent())); o["static"]=M->isStatic(); o["virtual"]=M->isVirtual(); o["const"]=M->isConst(); json::Array ov; for(auto*B:M->overridden_methods()) ov.push_back(fid(B)); o["overrides"]=std::move(ov); }
    if(auto*K=dyn_cast<CXXConstructorDecl>(F)){ o["isctor"]=true; json::Array is; for(auto*I:K->inits()){ json::Object io; if(I->isAnyMemberInitializer()) {io["m"]=I->getAnyMember()->getNameAsString(); io["w"]=I->isWritten();} else if(I->isBaseInitializer()) io["base"]=ty(QualType(I->getBaseClass(),0)); else io["deleg"]=true; io["e"]=expr(I->getInit()); is.push_back(std::move(io)); } o["inits"]=std::move(is); }
    if(isa<CXXDestructorDecl>(F)) o["isdtor"]=true;
    o["body"]=F->doesThisDeclarationHaveABody()?stmt(F->getBody()):json::Value(nullptr); funcs.push_back(std::move(o));
  }
};
struct Finder : RecursiveASTVisitor<Finder> { Dumper &D; Finder(Dumper&d):D(d){} bool shouldVisitTemplateInstantiations() const {return true;} bool shouldVisitImplicitCode() const {return false;}
  bool VisitFunctionDecl(FunctionDecl*F){ if(F->isDependentContext()) return true; const FunctionDecl*Def=nullptr;
    if(!std::regex_search(D.qn(F),D.rootRe)) return true;
    if((F->isTemplateInstantiation()||F->getTemplateInstantiationPattern())&&!F->isDefined(Def)&&!std::regex_search(D.qn(F),D.instRe)) return true;
    bool k=D.kept(F)||(F->getTemplateInstantiationPattern()&&D.kept(F->getTemplateInstantiationPattern())); if(!k) return true;
    D.callee(F); (void)Def; return true; } };
struct Cons : ASTConsumer { CompilerInstance &CI; Cons(CompilerInstance&ci):CI(ci){}
  void HandleTranslationUnit(ASTContext&C) override { Dumper D(C,&CI.getSema()); Finder(D).TraverseDecl(C.getTranslationUnitDecl());
    while(!D.work.empty()){ auto*F=D.work.front(); D.work.pop_front(); D.dumpFunc(F); }
    json::Object top; top["types"]=std::move(D.types); top["records"]=std::move(D.records); top["funcs"]=std::move(D.funcs); top["externs"]=std::move(D.externs); top["globals"]=std::move(D.globals);
    top["errors"]=(int)CI.getDiagnostics().getClient()->getNumErrors();
    std::error_code ec; llvm::raw_fd_ostream os(Out,ec); os<<json::Value(std::move(top))<<"\n"; } };
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&CI,llvm::StringRef) override { return std::make_unique<Cons>(CI);} 
  };
}
int main(int argc,const char**argv){ auto P=tooling::CommonOptionsParser::create(argc,argv,Cat); if(!P){ llvm::errs()<<P.takeError(); return 2; }
  tooling::ClangTool T(P->getCompilations(),P->getSourcePathList()); return T.run(tooling::newFrontendActionFactory<Act>().get()); }
