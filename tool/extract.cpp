#include "clang/Sema/Sema.h"
#include "clang/Sema/SemaConsumer.h"
// Extractor: dumps, for one translation unit, every function defined under the repository as a compact
// JSON syntax tree with resolved callees/fields/types, plus class descriptions and selected macro uses.
// It decides nothing: the rules live in /verif/rules.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/AST/OpenMPClause.h"
#include "clang/AST/ExprCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/PPCallbacks.h"
#include "clang/Lex/Preprocessor.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <iostream>
#include <set>
#include <map>
#include <sstream>
using namespace clang;

static std::string gRoot;      // repository root
static std::string gGen;       // generated-sources root
static std::ofstream gOut;
static std::set<std::string> gMacros={"YADE_PLUGIN","REGISTER_SERIALIZABLE","REGISTER_CLASS_INDEX","REGISTER_INDEX_COUNTER","REGISTER_CLASS_NAME","REGISTER_BASE_CLASS_NAME",
 "FUNCTOR1D","FUNCTOR2D","DEFINE_FUNCTOR_ORDER_2D","YADE_CLASS_BASE_DOC_ATTRS_INIT_CTOR_PY","YADE_CLASS_BASE_DOC_ATTRS_DEPREC_INIT_CTOR_PY","YADE_CLASS_BASE_DOC_STATICATTRS","YADE_CLASS_BASE_DOC_STATICATTRS_PY",
 "YADE_CLASS_BASE_DOC","YADE_CLASS_BASE_DOC_ATTRS","YADE_CLASS_BASE_DOC_ATTRS_PY","YADE_CLASS_BASE_DOC_ATTRS_CTOR","YADE_CLASS_BASE_DOC_ATTRS_CTOR_PY","YADE_DISPATCHER1D_FUNCTOR_DOC_ATTRS_CTOR_PY","YADE_DISPATCHER2D_FUNCTOR_DOC_ATTRS_CTOR_PY","REGISTER_FACTORABLE","YADE_CLASS_BASE_DOC_ATTRS_DEPREC_INIT_CTOR_PY"};

static void js(std::ostream&o,llvm::StringRef s){ o<<'"'; for(unsigned char c: s){ if(c=='"'||c=='\\') o<<'\\'<<c; else if(c=='\n') o<<"\\n"; else if(c=='\t') o<<"\\t"; else if(c=='\r') o<<"\\r"; else if(c<0x20||c>=0x7f){ char b[8]; snprintf(b,8,"\\u%04x",c); o<<b;} else o<<c; } o<<'"'; }

struct Dumper{
	ASTContext&C; SourceManager&SM; PrintingPolicy PP; std::ostream&o;
	std::map<const Decl*,int> ids;
	Dumper(ASTContext&c,std::ostream&os):C(c),SM(c.getSourceManager()),PP(c.getLangOpts()),o(os){ PP.SuppressTagKeyword=true; PP.Bool=true; PP.SuppressUnwrittenScope=true; PP.TerseOutput=true; PP.FullyQualifiedName=true; PP.SuppressScope=false; PP.PrintCanonicalTypes=false; }
	int id(const Decl*d){ d=d->getCanonicalDecl(); auto it=ids.find(d); if(it!=ids.end()) return it->second; int n=ids.size()+1; ids[d]=n; return n; }
	int line(SourceLocation l){ if(l.isInvalid()) return 0; return SM.getExpansionLineNumber(l); }
	std::string file(SourceLocation l){ if(l.isInvalid()) return ""; l=SM.getExpansionLoc(l); auto f=SM.getFilename(l); return f.str(); }
	std::string ty(QualType t){ if(t.isNull()) return "?"; QualType c=t.getNonReferenceType().getUnqualifiedType(); std::string s=c.getCanonicalType().getUnqualifiedType().getAsString(PP); if(s.size()>160) s=s.substr(0,160); return s; }
	std::string tyFull(QualType t){ if(t.isNull()) return "?"; std::string s=t.getCanonicalType().getAsString(PP); if(s.size()>200) s=s.substr(0,200); return s; }
	static std::string qn(const NamedDecl*d){ std::string s; llvm::raw_string_ostream os(s); 
		if(auto*f=dyn_cast<FunctionDecl>(d)){ (void)f; }
		d->printQualifiedName(os); return os.str(); }
	const Expr* strip(const Expr*e){
		while(e){
			if(auto*p=dyn_cast<ParenExpr>(e)) e=p->getSubExpr();
			else if(auto*p=dyn_cast<ExprWithCleanups>(e)) e=p->getSubExpr();
			else if(auto*p=dyn_cast<MaterializeTemporaryExpr>(e)) e=p->getSubExpr();
			else if(auto*p=dyn_cast<CXXBindTemporaryExpr>(e)) e=p->getSubExpr();
			else if(auto*p=dyn_cast<ImplicitCastExpr>(e)) e=p->getSubExpr();
			else if(auto*p=dyn_cast<ConstantExpr>(e)) e=p->getSubExpr();
			else if(auto*p=dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e=p->getReplacement();
			else if(auto*p=dyn_cast<CXXConstructExpr>(e)){
				if(p->getNumArgs()>=1 && p->getConstructor()->isCopyOrMoveConstructor() && !isa<CXXTemporaryObjectExpr>(p)) e=p->getArg(0);
				else break;
			}
			else if(auto*p=dyn_cast<CXXStdInitializerListExpr>(e)) e=p->getSubExpr();
			else if(auto*p=dyn_cast<CXXFunctionalCastExpr>(e)){
				// T(x) with a user constructor: the constructor node says it all
				const Expr*s=p->getSubExprAsWritten(); (void)s;
				if(p->getCastKind()==CK_ConstructorConversion) e=p->getSubExpr(); else break;
			}
			else if(auto*p=dyn_cast<CXXStaticCastExpr>(e)){ if(p->getCastKind()==CK_ConstructorConversion) e=p->getSubExpr(); else break; }
			else break;
		}
		return e;
	}
	void args(const Expr*const*b,const Expr*const*e){ o<<'['; bool f=true; for(;b!=e;++b){ if(!f) o<<','; f=false; expr(*b);} o<<']'; }
	template<class R> void argsR(R r){ o<<'['; bool f=true; for(const Expr*x: r){ if(!f) o<<','; f=false; expr(x);} o<<']'; }
	void fn(const FunctionDecl*f){ js(o,qn(f)); }
	std::string fkey(const FunctionDecl*f){ // overload key: name + param types
		std::string s=qn(f)+"("; bool first=true; for(auto*p: f->parameters()){ if(!first) s+=","; first=false; s+=tyFull(p->getType()); } s+=")"; if(auto*m=dyn_cast<CXXMethodDecl>(f)) if(m->isConst()) s+="const"; return s; }
	void expr(const Expr*e0){
		const Expr*e=strip(e0);
		if(!e){ o<<"null"; return; }
		int L=line(e->getExprLoc());
		if(auto*x=dyn_cast<IntegerLiteral>(e)){ llvm::SmallString<32> s; x->getValue().toString(s,10,true); o<<"[\"int\","<<L<<','<<s.c_str()<<']'; return; }
		if(auto*x=dyn_cast<CharacterLiteral>(e)){ o<<"[\"int\","<<L<<','<<x->getValue()<<']'; return; }
		if(auto*x=dyn_cast<FloatingLiteral>(e)){ char b[64]; snprintf(b,64,"%.17g",x->getValueAsApproximateDouble()); std::string s=b; o<<"[\"float\","<<L<<','; js(o,s); o<<']'; return; }
		if(auto*x=dyn_cast<CXXBoolLiteralExpr>(e)){ o<<"[\"bool\","<<L<<','<<(x->getValue()?"true":"false")<<']'; return; }
		if(auto*x=dyn_cast<clang::StringLiteral>(e)){ o<<"[\"str\","<<L<<','; if(x->getCharByteWidth()==1) js(o,x->getString()); else js(o,"?"); o<<']'; return; }
		if(isa<PredefinedExpr>(e)){ o<<"[\"str\","<<L<<",\"__func__\"]"; return; }
		if(isa<CXXNullPtrLiteralExpr>(e)||isa<GNUNullExpr>(e)){ o<<"[\"null\","<<L<<']'; return; }
		if(isa<CXXThisExpr>(e)){ o<<"[\"this\","<<L<<']'; return; }
		if(auto*x=dyn_cast<DeclRefExpr>(e)){ declref(L,x->getDecl()); return; }
		if(auto*x=dyn_cast<MemberExpr>(e)){
			auto*d=x->getMemberDecl();
			if(isa<VarDecl>(d)||isa<EnumConstantDecl>(d)){ declref(L,d); return; }
			o<<"[\"mem\","<<L<<','; expr(x->getBase()); o<<','; js(o,qn(d)); o<<','; js(o,ty(x->getType())); o<<','<<(x->isArrow()?1:0)<<']'; return; }
		if(auto*x=dyn_cast<CXXMemberCallExpr>(e)){
			auto*m=x->getMethodDecl(); o<<"[\"call\","<<L<<',';
			if(m) { js(o,fkey(m)); o<<','; js(o,qn(m)); } else o<<"\"?\",\"?\"";
			o<<','; expr(x->getImplicitObjectArgument()); o<<','; args(x->getArgs(),x->getArgs()+x->getNumArgs()); o<<','; js(o,ty(x->getType())); 
			bool virt=false; if(m&&m->isVirtual()){ virt=true; if(auto*me=dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) if(me->hasQualifier()) virt=false; }
			o<<','<<(virt?1:0); o<<','; { bool arrow=false; if(auto*me=dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) arrow=me->isArrow(); o<<(arrow?1:0);} 
			std::string ot; if(x->getImplicitObjectArgument()) ot=ty(x->getImplicitObjectArgument()->getType()); o<<','; js(o,ot); o<<']'; return; }
		if(auto*x=dyn_cast<CXXOperatorCallExpr>(e)){
			o<<"[\"op\","<<L<<','; js(o,getOperatorSpelling(x->getOperator())); o<<','; args(x->getArgs(),x->getArgs()+x->getNumArgs()); o<<',';
			auto*f=x->getDirectCallee(); if(f){ js(o,fkey(f)); o<<','; js(o,qn(f)); } else o<<"\"?\",\"?\""; o<<','; js(o,ty(x->getType())); o<<",["; for(unsigned i=0;i<x->getNumArgs();i++){ if(i) o<<','; js(o,ty(x->getArg(i)->getType())); } o<<"]]"; return; }
		if(auto*x=dyn_cast<CallExpr>(e)){
			auto*f=x->getDirectCallee();
			if(f){ o<<"[\"call\","<<L<<','; js(o,fkey(f)); o<<','; js(o,qn(f)); o<<",null,"; args(x->getArgs(),x->getArgs()+x->getNumArgs()); o<<','; js(o,ty(x->getType())); o<<",0,0,\"\"";
				if(auto*ta=f->getTemplateSpecializationArgs()){ std::string s; for(unsigned i=0;i<ta->size();i++){ if(i) s+=","; if(ta->get(i).getKind()==TemplateArgument::Type) s+=ty(ta->get(i).getAsType()); else s+="?"; } o<<','; js(o,s);} 
				o<<']'; }
			else { o<<"[\"icall\","<<L<<','; expr(x->getCallee()); o<<','; args(x->getArgs(),x->getArgs()+x->getNumArgs()); o<<','; js(o,ty(x->getType())); o<<']'; }
			return; }
		if(auto*x=dyn_cast<UnaryOperator>(e)){ o<<"[\"un\","<<L<<','; js(o,UnaryOperator::getOpcodeStr(x->getOpcode())); o<<','<<(x->isPostfix()?1:0)<<','; expr(x->getSubExpr()); o<<','; js(o,ty(x->getType())); o<<']'; return; }
		if(auto*x=dyn_cast<BinaryOperator>(e)){ o<<"[\"bin\","<<L<<','; js(o,x->getOpcodeStr()); o<<','; expr(x->getLHS()); o<<','; expr(x->getRHS()); o<<','; js(o,ty(x->getType())); o<<','; js(o,ty(x->getLHS()->getType())); o<<']'; return; }
		if(auto*x=dyn_cast<ArraySubscriptExpr>(e)){ o<<"[\"idx\","<<L<<','; expr(x->getBase()); o<<','; expr(x->getIdx()); o<<','; js(o,ty(x->getType())); o<<']'; return; }
		if(auto*x=dyn_cast<ConditionalOperator>(e)){ o<<"[\"cond\","<<L<<','; expr(x->getCond()); o<<','; expr(x->getTrueExpr()); o<<','; expr(x->getFalseExpr()); o<<','; js(o,ty(x->getType())); o<<']'; return; }
		if(auto*x=dyn_cast<ExplicitCastExpr>(e)){ const char*k="c"; if(isa<CXXStaticCastExpr>(x)) k="static"; else if(isa<CXXDynamicCastExpr>(x)) k="dynamic"; else if(isa<CXXConstCastExpr>(x)) k="const"; else if(isa<CXXReinterpretCastExpr>(x)) k="reinterpret"; else if(isa<CXXFunctionalCastExpr>(x)) k="func";
			o<<"[\"cast\","<<L<<','; js(o,k); o<<','; js(o,ty(x->getTypeAsWritten())); o<<','; expr(x->getSubExpr()); o<<','; js(o,ty(x->getSubExpr()->getType())); o<<']'; return; }
		if(auto*x=dyn_cast<CXXConstructExpr>(e)){ o<<"[\"ctor\","<<L<<','; js(o,ty(x->getType())); o<<','; args(x->getArgs(),x->getArgs()+x->getNumArgs()); o<<','; js(o,fkey(x->getConstructor())); o<<']'; return; }
		if(auto*x=dyn_cast<CXXNewExpr>(e)){ o<<"[\"new\","<<L<<','; js(o,ty(x->getAllocatedType())); o<<','; if(x->isArray()){ o<<"[\"arr\","; if(x->getArraySize()) expr(*x->getArraySize()); else o<<"null"; o<<']'; } else if(auto*ce=x->getConstructExpr()){ args(ce->getArgs(),ce->getArgs()+ce->getNumArgs()); } else o<<"[]"; o<<']'; return; }
		if(auto*x=dyn_cast<CXXDeleteExpr>(e)){ o<<"[\"delete\","<<L<<','; expr(x->getArgument()); o<<']'; return; }
		if(auto*x=dyn_cast<CXXThrowExpr>(e)){ o<<"[\"throw\","<<L<<','; if(x->getSubExpr()) expr(x->getSubExpr()); else o<<"null"; o<<']'; return; }
		if(auto*x=dyn_cast<InitListExpr>(e)){ o<<"[\"init\","<<L<<','; argsR(x->inits()); o<<','; js(o,ty(x->getType())); o<<']'; return; }
		if(auto*x=dyn_cast<CXXDefaultArgExpr>(e)){ o<<"[\"defarg\","<<L<<','; expr(x->getExpr()); o<<']'; return; }
		if(auto*x=dyn_cast<CXXDefaultInitExpr>(e)){ expr(x->getExpr()); return; }
		if(auto*x=dyn_cast<LambdaExpr>(e)){ o<<"[\"lambda\","<<L<<','; stmt(x->getBody()); o<<",["; bool f=true; for(auto*p: x->getCallOperator()->parameters()){ if(!f) o<<','; f=false; var(p);} o<<"],"; js(o,ty(x->getCallOperator()->getReturnType())); o<<','<<(x->isGenericLambda()?1:0)<<']'; return; }
		if(auto*x=dyn_cast<UnaryExprOrTypeTraitExpr>(e)){ o<<"[\"sizeof\","<<L<<','; js(o,x->isArgumentType()?ty(x->getArgumentType()):ty(x->getArgumentExpr()->getType())); o<<']'; return; }
		if(auto*x=dyn_cast<CXXScalarValueInitExpr>(e)){ o<<"[\"ctor\","<<L<<','; js(o,ty(x->getType())); o<<",[],\"\"]"; return; }
		if(isa<ImplicitValueInitExpr>(e)){ o<<"[\"ctor\","<<L<<','; js(o,ty(e->getType())); o<<",[],\"\"]"; return; }
		// dependent forms
		if(auto*x=dyn_cast<CXXDependentScopeMemberExpr>(e)){ o<<"[\"dmem\","<<L<<','; if(!x->isImplicitAccess()) expr(x->getBase()); else o<<"[\"this\","<<L<<"]"; o<<','; js(o,x->getMember().getAsString()); o<<']'; return; }
		if(auto*x=dyn_cast<UnresolvedMemberExpr>(e)){ o<<"[\"dmem\","<<L<<','; if(!x->isImplicitAccess()) expr(x->getBase()); else o<<"[\"this\","<<L<<"]"; o<<','; js(o,x->getMemberName().getAsString()); o<<']'; return; }
		if(auto*x=dyn_cast<UnresolvedLookupExpr>(e)){ o<<"[\"dname\","<<L<<','; js(o,x->getName().getAsString()); o<<']'; return; }
		if(auto*x=dyn_cast<DependentScopeDeclRefExpr>(e)){ o<<"[\"dname\","<<L<<','; js(o,x->getDeclName().getAsString()); o<<']'; return; }
		if(auto*x=dyn_cast<CXXUnresolvedConstructExpr>(e)){ o<<"[\"ctor\","<<L<<','; js(o,ty(x->getTypeAsWritten())); o<<",["; bool f=true; for(unsigned i=0;i<x->getNumArgs();i++){ if(!f) o<<','; f=false; expr(x->getArg(i)); } o<<"],\"\"]"; return; }
		if(auto*x=dyn_cast<ParenListExpr>(e)){ o<<"[\"ctor\","<<L<<",\"\",["; for(unsigned i=0;i<x->getNumExprs();i++){ if(i) o<<','; expr(x->getExpr(i)); } o<<"],\"\"]"; return; }
		// fallback: children
		o<<"[\"other\","<<L<<','; js(o,e->getStmtClassName()); o<<",["; bool f=true; for(auto*c: e->children()){ if(auto*ce=dyn_cast_or_null<Expr>(c)){ if(!f) o<<','; f=false; expr(ce);} } o<<"]]";
	}
	void declref(int L,const ValueDecl*d){
		if(auto*ec=dyn_cast<EnumConstantDecl>(d)){ llvm::SmallString<32> s; ec->getInitVal().toString(s,10); o<<"[\"enum\","<<L<<','; js(o,qn(ec)); o<<','<<s.c_str()<<']'; return; }
		if(auto*f=dyn_cast<FunctionDecl>(d)){ o<<"[\"fref\","<<L<<','; js(o,fkey(f)); o<<','; js(o,qn(f)); o<<']'; return; }
		if(auto*v=dyn_cast<VarDecl>(d)){ const char*k="local"; if(isa<ParmVarDecl>(v)) k="param"; else if(v->isStaticDataMember()) k="smember"; else if(v->isStaticLocal()) k="slocal"; else if(!v->isLocalVarDecl()) k="global";
			o<<"[\"var\","<<L<<','; js(o,(k[0]=='l'||k[0]=='p')?v->getNameAsString():qn(v)); o<<','<<id(v)<<','; js(o,k); o<<','; js(o,ty(v->getType())); 
			// value of constants
			if((k[0]=='g'||k[1]=='m')&&v->getType().isConstQualified()&&v->getType()->isIntegralOrEnumerationType()){ if(auto*iv=v->getAnyInitializer()){ if(!iv->isValueDependent()){ Expr::EvalResult r; if(iv->EvaluateAsInt(r,C)){ llvm::SmallString<32> s; r.Val.getInt().toString(s,10); o<<','<<s.c_str(); } } } }
			o<<']'; return; }
		if(auto*b=dyn_cast<BindingDecl>(d)){ o<<"[\"var\","<<L<<','; js(o,b->getNameAsString()); o<<','<<id(b)<<",\"local\","; js(o,ty(b->getType())); o<<']'; return; }
		o<<"[\"var\","<<L<<','; js(o,qn(d)); o<<','<<id(d)<<",\"other\","; js(o,ty(d->getType())); o<<']';
	}
	void var(const VarDecl*v){
		o<<'['; js(o,v->getNameAsString()); o<<','<<id(v)<<','; js(o,ty(v->getType())); o<<','<<(v->getType()->isReferenceType()?1:0)<<','<<((v->isStaticLocal()||v->getTSCSpec()!=TSCS_unspecified)?1:0)<<','; if(v->getInit()&&!isa<ParmVarDecl>(v)) expr(v->getInit()); else if(auto*p=dyn_cast<ParmVarDecl>(v)){ if(p->hasInit()&&!p->hasUninstantiatedDefaultArg()&&!p->hasUnparsedDefaultArg()&&p->getInit()) expr(p->getInit()); else o<<"null"; } else o<<"null";
		bool cst=v->getType().getNonReferenceType().isConstQualified(); o<<','<<(cst?1:0)<<','<<line(v->getLocation())<<']';
	}
	void stmt(const Stmt*s){
		if(!s){ o<<"null"; return; }
		int L=line(s->getBeginLoc());
		if(auto*x=dyn_cast<CompoundStmt>(s)){ o<<"[\"seq\","<<L<<",["; bool f=true; for(auto*c: x->body()){ if(!f) o<<','; f=false; stmt(c);} o<<"]]"; return; }
		if(auto*x=dyn_cast<DeclStmt>(s)){ o<<"[\"decl\","<<L<<",["; bool f=true; for(auto*d: x->decls()) if(auto*v=dyn_cast<VarDecl>(d)){ if(!f) o<<','; f=false; var(v);} o<<"]]"; return; }
		if(auto*x=dyn_cast<IfStmt>(s)){ o<<"[\"if\","<<L<<','; if(x->getInit()||x->getConditionVariable()){ if(x->getConditionVariableDeclStmt()) stmt(x->getConditionVariableDeclStmt()); else stmt(x->getInit()); } else o<<"null"; o<<','; expr(x->getCond()); o<<','; stmt(x->getThen()); o<<','; stmt(x->getElse()); o<<']'; return; }
		if(auto*x=dyn_cast<ForStmt>(s)){ o<<"[\"for\","<<L<<','; stmt(x->getInit()); o<<','; expr(x->getCond()); o<<','; expr(x->getInc()); o<<','; stmt(x->getBody()); o<<']'; return; }
		if(auto*x=dyn_cast<CXXForRangeStmt>(s)){ o<<"[\"rfor\","<<L<<','; o<<'['; auto*v=x->getLoopVariable(); js(o,v->getNameAsString()); o<<','<<id(v)<<','; js(o,ty(v->getType())); o<<','<<(v->getType()->isReferenceType()?1:0)<<",0,null,"<<(v->getType().getNonReferenceType().isConstQualified()?1:0)<<','<<line(v->getLocation())<<"],"; expr(x->getRangeInit()); o<<','; stmt(x->getBody()); o<<']'; return; }
		if(auto*x=dyn_cast<WhileStmt>(s)){ o<<"[\"while\","<<L<<','; if(x->getConditionVariableDeclStmt()) stmt(x->getConditionVariableDeclStmt()); else o<<"null"; o<<','; expr(x->getCond()); o<<','; stmt(x->getBody()); o<<']'; return; }
		if(auto*x=dyn_cast<DoStmt>(s)){ o<<"[\"do\","<<L<<','; expr(x->getCond()); o<<','; stmt(x->getBody()); o<<']'; return; }
		if(auto*x=dyn_cast<SwitchStmt>(s)){ o<<"[\"switch\","<<L<<','; expr(x->getCond()); o<<','; stmt(x->getBody()); o<<']'; return; }
		if(auto*x=dyn_cast<CaseStmt>(s)){ o<<"[\"case\","<<L<<','; expr(x->getLHS()); o<<','; stmt(x->getSubStmt()); o<<']'; return; }
		if(auto*x=dyn_cast<DefaultStmt>(s)){ o<<"[\"default\","<<L<<','; stmt(x->getSubStmt()); o<<']'; return; }
		if(isa<BreakStmt>(s)){ o<<"[\"break\","<<L<<']'; return; }
		if(isa<ContinueStmt>(s)){ o<<"[\"continue\","<<L<<']'; return; }
		if(auto*x=dyn_cast<ReturnStmt>(s)){ o<<"[\"return\","<<L<<','; if(x->getRetValue()) expr(x->getRetValue()); else o<<"null"; o<<']'; return; }
		if(auto*x=dyn_cast<CXXTryStmt>(s)){ o<<"[\"try\","<<L<<','; stmt(x->getTryBlock()); o<<",["; for(unsigned i=0;i<x->getNumHandlers();i++){ if(i) o<<','; auto*h=x->getHandler(i); o<<'['; if(h->getExceptionDecl()){ js(o,ty(h->getExceptionDecl()->getType())); o<<','; var(h->getExceptionDecl()); } else o<<"\"...\",null"; o<<','; stmt(h->getHandlerBlock()); o<<']'; } o<<"]]"; return; }
		if(auto*x=dyn_cast<OMPExecutableDirective>(s)){
			o<<"[\"omp\","<<L<<','; js(o,llvm::omp::getOpenMPDirectiveName(x->getDirectiveKind())); o<<",["; bool f=true;
			for(auto*c: x->clauses()){ if(!c) continue; if(c->isImplicit()) continue; if(!f) o<<','; f=false; o<<'['; js(o,llvm::omp::getOpenMPClauseName(c->getClauseKind())); o<<",["; bool g=true;
				auto list=[&](auto*cl){ for(auto*e: cl->varlists()){ if(!g) o<<','; g=false; expr(e);} };
				if(auto*p=dyn_cast<OMPPrivateClause>(c)) list(p); else if(auto*p=dyn_cast<OMPFirstprivateClause>(c)) list(p); else if(auto*p=dyn_cast<OMPLastprivateClause>(c)) list(p); else if(auto*p=dyn_cast<OMPSharedClause>(c)) list(p); else if(auto*p=dyn_cast<OMPReductionClause>(c)) list(p);
				else if(auto*p=dyn_cast<OMPNumThreadsClause>(c)) expr(p->getNumThreads());
				o<<"]]"; }
			o<<"],"; 
			std::string cn; if(auto*cd=dyn_cast<OMPCriticalDirective>(x)) cn=cd->getDirectiveName().getAsString();
			const Stmt*b=nullptr; if(x->hasAssociatedStmt()){ b=x->getRawStmt(); while(auto*cs=dyn_cast_or_null<CapturedStmt>(b)) b=cs->getCapturedStmt(); }
			if(b) stmt(b); else o<<"null"; o<<','; js(o,cn); o<<']'; return; }
		if(auto*x=dyn_cast<CapturedStmt>(s)){ stmt(x->getCapturedStmt()); return; }
		if(auto*x=dyn_cast<LabelStmt>(s)){ o<<"[\"label\","<<L<<','; js(o,x->getName()); o<<','; stmt(x->getSubStmt()); o<<']'; return; }
		if(auto*x=dyn_cast<GotoStmt>(s)){ o<<"[\"goto\","<<L<<','; js(o,x->getLabel()->getName()); o<<']'; return; }
		if(auto*x=dyn_cast<AttributedStmt>(s)){ stmt(x->getSubStmt()); return; }
		if(isa<NullStmt>(s)){ o<<"[\"seq\","<<L<<",[]]"; return; }
		if(auto*x=dyn_cast<Expr>(s)){ o<<"[\"expr\","<<L<<','; expr(x); o<<']'; return; }
		o<<"[\"ostmt\","<<L<<','; js(o,s->getStmtClassName()); o<<",["; bool f=true; for(auto*c: s->children()){ if(!c) continue; if(!f) o<<','; f=false; stmt(c);} o<<"]]";
	}
};

struct V: RecursiveASTVisitor<V>{
	ASTContext&C; SourceManager&SM; std::ostream&o; Dumper D; std::set<std::string> seen; std::set<std::string> seenCls; bool first=true;
	V(ASTContext&c,std::ostream&os):C(c),SM(c.getSourceManager()),o(os),D(c,os){}
	bool shouldVisitTemplateInstantiations()const{return true;} bool shouldVisitImplicitCode()const{return false;}
	bool inRepo(SourceLocation l,std::string&f){ f=D.file(l); if(f.empty()) return false; llvm::StringRef r(f); 
		if(r.starts_with(gGen)) { return true; }
		return r.starts_with(gRoot+"/") ; }
	std::string rel(const std::string&f){ llvm::StringRef r(f); if(r.starts_with(gGen)) return "gen:"+r.substr(gGen.size()+1).str(); if(r.starts_with(gRoot+"/")) return r.substr(gRoot.size()+1).str(); return f; }
	void sep(){ o<<"\n"; }
	bool VisitFunctionDecl(FunctionDecl*f){
		if(!f->doesThisDeclarationHaveABody()||f->isImplicit()) return true;
		if(isa<CXXMethodDecl>(f)&&cast<CXXMethodDecl>(f)->getParent()->isLambda()) return true;
		std::string file; if(!inRepo(f->getLocation(),file)) return true;
		bool dep=f->isDependentContext();
		int L=D.line(f->getLocation());
		std::ostringstream k; k<<file<<':'<<L<<':'<<SM.getExpansionColumnNumber(f->getLocation())<<(dep?":d":"")<<':'; 
		// one instantiation of a template is enough; keep the pattern only under its own key. Macro-made functions share a line: add name
		k<<f->getNameAsString()<<':'<<f->getNumParams(); 
		bool inst=f->isTemplateInstantiation(); if(auto*m=dyn_cast<CXXMethodDecl>(f)) if(isa<ClassTemplateSpecializationDecl>(m->getParent())) inst=true;
		if(!inst) { k<<Dumper::qn(f); for(auto*p: f->parameters()) k<<','<<D.tyFull(p->getType()); }
		if(!seen.insert(k.str()).second) return true;
		sep();
		o<<"{\"t\":\"fn\",\"q\":"; js(o,Dumper::qn(f)); o<<",\"key\":"; js(o,D.fkey(f)); o<<",\"file\":"; js(o,rel(file)); o<<",\"line\":"<<L<<",\"end\":"<<D.line(f->getEndLoc())<<",\"dep\":"<<(dep?1:0)<<",\"inst\":"<<(inst?1:0);
		o<<",\"ret\":"; js(o,D.tyFull(f->getReturnType()));
		if(auto*m=dyn_cast<CXXMethodDecl>(f)){ o<<",\"cls\":"; js(o,Dumper::qn(m->getParent())); o<<",\"static\":"<<(m->isStatic()?1:0)<<",\"virtual\":"<<(m->isVirtual()?1:0)<<",\"const\":"<<(m->isConst()?1:0)<<",\"access\":"<<(int)m->getAccess(); }
		if(auto*c=dyn_cast<CXXConstructorDecl>(f)){ o<<",\"inits\":["; bool g=true; for(auto*i: c->inits()){ if(!i->isWritten()&&!i->isInClassMemberInitializer()) continue; if(!g) o<<','; g=false; o<<'['; if(i->isMemberInitializer()) js(o,Dumper::qn(i->getMember())); else if(i->isBaseInitializer()) js(o,"base:"+D.ty(QualType(i->getBaseClass(),0))); else js(o,"?"); o<<','; if(i->getInit()) D.expr(i->getInit()); else o<<"null"; o<<']'; } o<<']'; }
		if(isa<CXXConstructorDecl>(f)) o<<",\"ctor\":1"; if(isa<CXXDestructorDecl>(f)) o<<",\"dtor\":1";
		o<<",\"params\":["; bool g=true; for(auto*p: f->parameters()){ if(!g) o<<','; g=false; D.var(p);} o<<"],\"body\":"; D.stmt(f->getBody()); o<<"}";
		return true;
	}
	bool VisitCXXRecordDecl(CXXRecordDecl*r){
		if(!r->isThisDeclarationADefinition()||r->isImplicit()||r->isLambda()) return true;
		std::string file; if(!inRepo(r->getLocation(),file)) return true;
		std::string q=Dumper::qn(r); bool inst=isa<ClassTemplateSpecializationDecl>(r); if(!seenCls.insert(q+(r->isDependentContext()?"|d":"")+(inst?"|i":"")).second) return true;
		sep();
		o<<"{\"t\":\"cls\",\"q\":"; js(o,q); o<<",\"file\":"; js(o,rel(file)); o<<",\"line\":"<<D.line(r->getLocation())<<",\"dep\":"<<(r->isDependentContext()?1:0)<<",\"inst\":"<<(inst?1:0)<<",\"bases\":["; bool g=true;
		for(auto&b: r->bases()){ if(!g) o<<','; g=false; js(o,D.ty(b.getType())); } o<<"],\"fields\":["; g=true;
		for(auto*f: r->fields()){ if(!g) o<<','; g=false; o<<'['; js(o,f->getNameAsString()); o<<','; js(o,D.ty(f->getType())); o<<','<<(int)f->getAccess()<<','<<(f->isMutable()?1:0)<<','<<D.line(f->getLocation())<<']'; }
		o<<"],\"svars\":["; g=true;
		for(auto*d: r->decls()) if(auto*v=dyn_cast<VarDecl>(d)){ if(!g) o<<','; g=false; o<<'['; js(o,v->getNameAsString()); o<<','; js(o,D.ty(v->getType())); o<<','<<(v->getType().isConstQualified()?1:0)<<']'; }
		o<<"],\"methods\":["; g=true;
		for(auto*m: r->methods()){ if(m->isImplicit()) continue; if(!g) o<<','; g=false; o<<'['; js(o,m->getNameAsString()); o<<','; js(o,D.fkey(m)); o<<','<<(m->isVirtual()?1:0)<<','<<(m->isPureVirtual()?1:0)<<",["; bool h=true; for(auto*ov: m->overridden_methods()){ if(!h) o<<','; h=false; js(o,D.fkey(ov)); } o<<"],"<<(int)m->getAccess()<<']'; }
		o<<"]}";
		return true;
	}
};

struct PPC: PPCallbacks{ 
	Preprocessor&PP; std::ostream&o; PPC(Preprocessor&p,std::ostream&os):PP(p),o(os){}
	void MacroExpands(const Token&T,const MacroDefinition&,SourceRange R,const MacroArgs*)override{
		auto n=T.getIdentifierInfo()->getName(); if(!gMacros.count(n.str())) return; auto&SM=PP.getSourceManager(); if(T.getLocation().isMacroID()) return;
		std::string f=SM.getFilename(T.getLocation()).str(); if(!llvm::StringRef(f).starts_with(gRoot+"/")&&!llvm::StringRef(f).starts_with(gGen)) return;
		auto txt=Lexer::getSourceText(CharSourceRange::getTokenRange(R),SM,PP.getLangOpts());
		o<<"\n{\"t\":\"macro\",\"name\":"; js(o,n); o<<",\"file\":"; llvm::StringRef r(f); js(o,r.starts_with(gGen)?("gen:"+r.substr(gGen.size()+1).str()):r.substr(gRoot.size()+1).str()); o<<",\"line\":"<<SM.getExpansionLineNumber(T.getLocation())<<",\"text\":"; js(o,txt); o<<"}";
	}
	void InclusionDirective(SourceLocation HashLoc,const Token&,StringRef,bool,CharSourceRange,OptionalFileEntryRef File,StringRef,StringRef,const Module*,SrcMgr::CharacteristicKind)override{
		if(!File) return; std::string f=File->getName().str(); if(llvm::StringRef(f).starts_with(gRoot+"/")) deps.insert(f); }
	static std::set<std::string> deps;
};
std::set<std::string> PPC::deps;

// The unit is analysed as a prefix: the end-of-unit template instantiations (boost.python, boost.serialization, Eigen bodies) are not
// performed; only templates whose pattern is defined in the repository are instantiated, on demand, below.
struct Cons: SemaConsumer{ std::ostream&o; Sema*S=nullptr; Cons(std::ostream&os):o(os){}
	void InitializeSema(Sema&s)override{ S=&s; } void ForgetSema()override{ S=nullptr; }
	void HandleTranslationUnit(ASTContext&C)override{
		if(S){ V pv(C,o); auto&SM=C.getSourceManager(); int n=0;
			while(!S->PendingInstantiations.empty()&&n<200000){ auto pi=S->PendingInstantiations.front(); S->PendingInstantiations.pop_front(); n++;
				auto*f=dyn_cast<FunctionDecl>(pi.first); if(!f||f->isInvalidDecl()) continue;
				auto*pat=f->getTemplateInstantiationPattern(); if(!pat) continue; std::string file; if(!pv.inRepo(pat->getLocation(),file)) continue;
				auto nm=f->getNameAsString(); if(nm=="serialize"||nm=="load"||nm=="save") continue;
				S->InstantiateFunctionDefinition(pi.second,f,false,false,true); } }
		V v(C,o); v.TraverseDecl(C.getTranslationUnitDecl()); } };
struct Act: ASTFrontendAction{ TranslationUnitKind getTranslationUnitKind()override{ return TU_Prefix; } std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&CI,llvm::StringRef)override{ CI.getPreprocessor().addPPCallbacks(std::make_unique<PPC>(CI.getPreprocessor(),gOut)); return std::make_unique<Cons>(gOut);} };
struct Diag: DiagnosticConsumer{ int errs=0; void HandleDiagnostic(DiagnosticsEngine::Level l,const Diagnostic&d)override{ DiagnosticConsumer::HandleDiagnostic(l,d); if(l>=DiagnosticsEngine::Error){ llvm::SmallString<256> s; d.FormatDiagnostic(s); std::string f; int line=0; if(d.hasSourceManager()&&d.getLocation().isValid()){ auto&SM=d.getSourceManager(); f=SM.getFilename(SM.getExpansionLoc(d.getLocation())).str(); line=SM.getExpansionLineNumber(d.getLocation()); }
	gOut<<"\n{\"t\":\"err\",\"file\":"; js(gOut,f); gOut<<",\"line\":"<<line<<",\"msg\":"; js(gOut,s); gOut<<"}"; errs++; } } };

int main(int argc,const char**argv){
	// extract ROOT GEN OUT SRC -- flags...
	if(argc<6){ std::cerr<<"usage: extract ROOT GEN OUT SRC -- flags\n"; return 2; }
	gRoot=argv[1]; gGen=argv[2]; gOut.open(argv[3]); std::string src=argv[4];
	std::vector<std::string> flags; for(int i=6;i<argc;i++) flags.push_back(argv[i]);
	tooling::FixedCompilationDatabase db(".",flags);
	tooling::ClangTool tool(db,{src}); Diag d; tool.setDiagnosticConsumer(&d); tool.setPrintErrorMessage(false);
	int rc=tool.run(tooling::newFrontendActionFactory<Act>().get()); (void)rc;
	for(auto&f: PPC::deps){ gOut<<"\n{\"t\":\"dep\",\"f\":"; js(gOut,f); gOut<<"}"; }
	gOut<<"\n{\"t\":\"end\",\"errors\":"<<d.errs<<"}\n"; gOut.close(); return 0;
}
