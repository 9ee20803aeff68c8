// astdump: parse one translation unit with clang and print, as JSON, the type-checked syntax trees of
// the functions, records and enums that come from the analysed tree (files below ROOT).
//
//   astdump -o OUT.json -root /repo FILE.cpp -- <clang flags>
//
// Template instantiations are printed with their resolved types; nothing is executed.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Frontend/TextDiagnosticPrinter.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include <set>
#include <string>

using namespace clang;
using namespace llvm;

static std::string gOut; static std::vector<std::string> gRoots;
static bool gParsed = false;
static int64_t iv(const APSInt& v) { return v.extOrTrunc(64).getSExtValue(); }

struct Printer : RecursiveASTVisitor<Printer> {
	ASTContext& C; SourceManager& SM; json::OStream& J; std::unique_ptr<MangleContext> MC;
	PrintingPolicy PP;
	std::vector<const FunctionDecl*> funcs; std::vector<const CXXRecordDecl*> recs; std::vector<const EnumDecl*> enums; std::vector<const VarDecl*> vars;
	std::set<const Decl*> seen;
	Printer(ASTContext& c, json::OStream& j) : C(c), SM(c.getSourceManager()), J(j), MC(ItaniumMangleContext::create(c, c.getDiagnostics())), PP(c.getPrintingPolicy()) {
		PP.SuppressTagKeyword = true; PP.Bool = true; PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true; PP.SuppressUnwrittenScope = true; PP.AnonymousTagLocations = false;
	}
	bool shouldVisitTemplateInstantiations() const { return true; }
	bool shouldVisitImplicitCode() const { return true; }
	bool shouldVisitLambdaBody() const { return true; }

	std::string file(SourceLocation l) { auto p = SM.getPresumedLoc(SM.getExpansionLoc(l)); return p.isValid() ? p.getFilename() : ""; }
	int line(SourceLocation l) { auto p = SM.getPresumedLoc(SM.getExpansionLoc(l)); return p.isValid() ? (int)p.getLine() : 0; }
	bool mine(SourceLocation l) { auto f = file(l); for (auto& r : gRoots) if (StringRef(f).startswith(r)) return true; return false; }
	std::string ty(QualType t) { return t.isNull() ? "" : t.getCanonicalType().getAsString(PP); }

	bool VisitFunctionDecl(FunctionDecl* f) {
		if (f->isDependentContext() || !f->doesThisDeclarationHaveABody()) { if (!(f->isDefaulted() && f->isThisDeclarationADefinition() && !f->isDependentContext() && f->getBody())) return true; }
		if (!mine(f->getLocation())) return true;
		if (seen.insert(f).second) funcs.push_back(f);
		return true;
	}
	bool VisitCXXRecordDecl(CXXRecordDecl* r) {
		if (!r->isThisDeclarationADefinition() || r->isDependentContext() || !mine(r->getLocation())) return true;
		if (seen.insert(r).second) recs.push_back(r);
		return true;
	}
	bool VisitEnumDecl(EnumDecl* e) {
		if (!e->isThisDeclarationADefinition() || e->isDependentContext() || !mine(e->getLocation())) return true;
		if (seen.insert(e).second) enums.push_back(e);
		return true;
	}
	bool VisitVarDecl(VarDecl* v) {
		if (v->getType()->isDependentType() || v->getDeclContext()->isDependentContext() || !mine(v->getLocation())) return true;
		if (!v->hasGlobalStorage()) return true;
		if (seen.insert(v).second) vars.push_back(v);
		return true;
	}

	std::string qname(const NamedDecl* d) { std::string s; raw_string_ostream o(s); d->printQualifiedName(o, PP); 
		return s; }
	std::string fullname(const NamedDecl* d) {	// with template arguments
		std::string s; raw_string_ostream o(s); d->getNameForDiagnostic(o, PP, true); return s; }
	std::string mangled(const FunctionDecl* f) {
		if (f->isDependentContext() || !MC->shouldMangleDeclName(f)) return f->getNameAsString();
		std::string s; raw_string_ostream o(s);
		if (auto* c = dyn_cast<CXXConstructorDecl>(f)) MC->mangleName(GlobalDecl(c, Ctor_Complete), o);
		else if (auto* d = dyn_cast<CXXDestructorDecl>(f)) MC->mangleName(GlobalDecl(d, Dtor_Complete), o);
		else MC->mangleName(GlobalDecl(f), o);
		return s;
	}
	int64_t id(const Decl* d) { return d ? (int64_t)C.getAllocator().identifyKnownObject(d->getCanonicalDecl()) : 0; }

	void declref(const char* k, const ValueDecl* d) {
		J.attributeObject(k, [&] {
			J.attribute("id", id(d)); J.attribute("k", d->getDeclKindName()); J.attribute("n", d->getNameAsString());
			J.attribute("q", qname(d));
			J.attribute("t", ty(d->getType()));
			if (auto* f = dyn_cast<FunctionDecl>(d)) {
				J.attribute("m", mangled(f));
				J.attribute("mine", mine(f->getLocation()) ? 1 : 0);
				if (auto* m = dyn_cast<CXXMethodDecl>(f)) { J.attribute("cls", fullname(m->getParent())); if (m->isConst()) J.attribute("const", 1); if (m->isStatic()) J.attribute("static", 1); if (m->isVirtual()) J.attribute("virtual", 1); }
			}
			if (auto* fd = dyn_cast<FieldDecl>(d)) J.attribute("cls", fullname(cast<NamedDecl>(fd->getParent())));
			if (auto* v = dyn_cast<VarDecl>(d)) {
				if (v->hasGlobalStorage()) J.attribute("global", 1);
				if (v->isLocalVarDecl()) J.attribute("local", 1);
			}
			if (auto* p = dyn_cast<ParmVarDecl>(d)) J.attribute("pi", (int)p->getFunctionScopeIndex());
			if (auto* e = dyn_cast<EnumConstantDecl>(d)) J.attribute("v", iv(e->getInitVal()));
		});
	}

	void vardecl(const VarDecl* v) {
		J.object([&] {
			J.attribute("k", v->getDeclKindName()); J.attribute("id", id(v)); J.attribute("n", v->getNameAsString()); J.attribute("t", ty(v->getType())); J.attribute("l", line(v->getLocation()));
			if (v->isStaticLocal()) J.attribute("static", 1);
			if (v->getTLSKind() != VarDecl::TLS_None) J.attribute("tls", 1);
			if (auto* i = v->getInit()) { J.attributeBegin("init"); stmt(i); J.attributeEnd(); J.attribute("style", (int)v->getInitStyle()); }
			if (auto* dd = dyn_cast<DecompositionDecl>(v)) J.attributeArray("bind", [&] { for (auto* b : dd->bindings()) J.object([&] { J.attribute("id", id(b)); J.attribute("n", b->getNameAsString()); if (b->getBinding()) { J.attributeBegin("e"); stmt(b->getBinding()); J.attributeEnd(); } }); });
		});
	}

	void stmt(const Stmt* s) {
		if (!s) { J.value(nullptr); return; }
		if (auto* e = dyn_cast<ExprWithCleanups>(s)) return stmt(e->getSubExpr());
		if (auto* e = dyn_cast<ParenExpr>(s)) return stmt(e->getSubExpr());
		if (auto* e = dyn_cast<SubstNonTypeTemplateParmExpr>(s)) return stmt(e->getReplacement());
		if (auto* e = dyn_cast<ConstantExpr>(s)) return stmt(e->getSubExpr());
		if (auto* e = dyn_cast<CXXDefaultArgExpr>(s)) { J.object([&] { J.attribute("k", "DefaultArg"); J.attribute("t", ty(e->getType())); J.attributeArray("c", [&] { stmt(e->getExpr()); }); }); return; }
		if (auto* e = dyn_cast<CXXDefaultInitExpr>(s)) { J.object([&] { J.attribute("k", "DefaultInit"); J.attribute("t", ty(e->getType())); J.attributeArray("c", [&] { stmt(e->getExpr()); }); }); return; }
		J.object([&] {
			J.attribute("k", s->getStmtClassName());
			if (auto l = s->getBeginLoc(); l.isValid()) J.attribute("l", line(l));
			if (auto* e = dyn_cast<Expr>(s)) {
				J.attribute("t", ty(e->getType()));
				if (e->isLValue()) J.attribute("lv", 1); else if (e->isXValue()) J.attribute("xv", 1);
				if (!e->isValueDependent() && !e->isTypeDependent() && e->getType()->isIntegralOrEnumerationType() && !isa<IntegerLiteral>(e) && !isa<CharacterLiteral>(e)) {
					Expr::EvalResult r; if (e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects) && r.Val.isInt()) J.attribute("cv", iv(r.Val.getInt()));
				}
			}
			bool children = true;
			if (auto* e = dyn_cast<DeclRefExpr>(s)) declref("d", e->getDecl());
			else if (auto* e = dyn_cast<MemberExpr>(s)) { declref("d", e->getMemberDecl()); if (e->isArrow()) J.attribute("arrow", 1); }
			else if (auto* e = dyn_cast<CallExpr>(s)) {
				if (auto* f = e->getDirectCallee()) declref("f", f);
				if (auto* o = dyn_cast<CXXOperatorCallExpr>(s)) J.attribute("op", getOperatorSpelling(o->getOperator()));
				if (auto* m = dyn_cast<CXXMemberCallExpr>(s)) if (auto* me = dyn_cast_or_null<MemberExpr>(m->getCallee()->IgnoreParens())) if (me->hasQualifier()) J.attribute("qualified", 1);
			}
			else if (auto* e = dyn_cast<CXXConstructExpr>(s)) { declref("f", e->getConstructor()); if (e->isElidable()) J.attribute("elide", 1); if (e->getConstructor()->isCopyOrMoveConstructor()) J.attribute("cm", e->getConstructor()->isMoveConstructor() ? "move" : "copy"); }
			else if (auto* e = dyn_cast<CXXInheritedCtorInitExpr>(s)) declref("f", e->getConstructor());
			else if (auto* e = dyn_cast<CastExpr>(s)) { J.attribute("ck", e->getCastKindName()); }
			else if (auto* e = dyn_cast<BinaryOperator>(s)) J.attribute("op", e->getOpcodeStr());
			else if (auto* e = dyn_cast<UnaryOperator>(s)) { J.attribute("op", UnaryOperator::getOpcodeStr(e->getOpcode())); if (e->isPostfix()) J.attribute("post", 1); }
			else if (auto* e = dyn_cast<IntegerLiteral>(s)) J.attribute("v", e->getValue().getActiveBits() <= 63 ? (int64_t)e->getValue().getZExtValue() : (int64_t)-1);
			else if (auto* e = dyn_cast<CharacterLiteral>(s)) J.attribute("v", (int64_t)e->getValue());
			else if (auto* e = dyn_cast<FloatingLiteral>(s)) J.attribute("v", e->getValueAsApproximateDouble());
			else if (auto* e = dyn_cast<CXXBoolLiteralExpr>(s)) J.attribute("v", (int64_t)e->getValue());
			else if (auto* e = dyn_cast<clang::StringLiteral>(s)) { if (e->getCharByteWidth() == 1) { std::string b = e->getBytes().str(); if (json::isUTF8(b)) J.attribute("v", b); else J.attribute("v", "?"); } }
			else if (auto* e = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) { (void)e; }
			else if (auto* e = dyn_cast<CXXThrowExpr>(s)) { J.attribute("et", e->getSubExpr() ? ty(e->getSubExpr()->getType()) : ""); }
			else if (auto* e = dyn_cast<CXXCatchStmt>(s)) { J.attribute("ct", e->getExceptionDecl() ? ty(e->getCaughtType()) : "..."); if (e->getExceptionDecl()) J.attribute("id", id(e->getExceptionDecl())); }
			else if (auto* e = dyn_cast<CXXNewExpr>(s)) { J.attribute("array", e->isArray()); J.attribute("nt", ty(e->getAllocatedType())); }
			else if (auto* e = dyn_cast<CXXDeleteExpr>(s)) { J.attribute("array", e->isArrayForm()); }
			else if (auto* e = dyn_cast<SwitchStmt>(s)) { J.attribute("alldef", e->isAllEnumCasesCovered()); }
			else if (auto* e = dyn_cast<DeclStmt>(s)) {
				children = false;
				J.attributeArray("vars", [&] { for (auto* d : e->decls()) if (auto* v = dyn_cast<VarDecl>(d)) vardecl(v); });
			}
			else if (auto* e = dyn_cast<LambdaExpr>(s)) {
				children = false;
				J.attribute("m", mangled(e->getCallOperator()));
				J.attributeArray("caps", [&] { for (auto& c : e->captures()) J.object([&] { J.attribute("this", c.capturesThis()); if (c.capturesVariable()) { J.attribute("n", c.getCapturedVar()->getNameAsString()); J.attribute("id", id(c.getCapturedVar())); J.attribute("ref", c.getCaptureKind() == LCK_ByRef); } }); });
				J.attributeBegin("body"); stmt(e->getBody()); J.attributeEnd();
			}
			else if (auto* e = dyn_cast<IfStmt>(s)) { 
				children = false; J.attribute("constexpr", e->isConstexpr());
				J.attributeBegin("init"); stmt(e->getInit()); J.attributeEnd();
				J.attributeBegin("var"); stmt(e->getConditionVariableDeclStmt()); J.attributeEnd();
				J.attributeBegin("cond"); stmt(e->getCond()); J.attributeEnd();
				J.attributeBegin("then"); stmt(e->getThen()); J.attributeEnd();
				J.attributeBegin("else"); stmt(e->getElse()); J.attributeEnd();
			}
			else if (auto* e = dyn_cast<CXXForRangeStmt>(s)) {
				children = false;
				J.attributeBegin("range"); stmt(e->getRangeInit()); J.attributeEnd();
				J.attributeBegin("var"); stmt(e->getLoopVarStmt()); J.attributeEnd();
				J.attributeBegin("body"); stmt(e->getBody()); J.attributeEnd();
			}
			else if (auto* e = dyn_cast<InitListExpr>(s)) { if (e->isSemanticForm() == false && e->getSemanticForm()) { children = false; J.attributeArray("c", [&] { for (auto* c : e->getSemanticForm()->inits()) stmt(c); }); } if (auto* u = e->getInitializedFieldInUnion()) J.attribute("uf", u->getNameAsString()); }
			else if (auto* e = dyn_cast<CXXTypeidExpr>(s)) { if (e->isTypeOperand()) { children = false; J.attribute("to", ty(e->getTypeOperand(C))); } }
			else if (auto* e = dyn_cast<MaterializeTemporaryExpr>(s)) { J.attribute("ext", e->getExtendingDecl() ? 1 : 0); }
			if (children) {
				bool any = false; for (auto* c : s->children()) { (void)c; any = true; break; }
				if (any) J.attributeArray("c", [&] { for (auto* c : s->children()) stmt(c); });
			}
		});
	}

	void function(const FunctionDecl* f) {
		J.object([&] {
			J.attribute("id", id(f)); J.attribute("k", f->Decl::getDeclKindName()); J.attribute("n", f->getNameAsString()); J.attribute("q", qname(f)); J.attribute("full", fullname(f)); J.attribute("m", mangled(f));
			J.attribute("file", file(f->getLocation())); J.attribute("l", line(f->getLocation()));
			J.attribute("ret", ty(f->getReturnType()));
			if (f->isImplicit()) J.attribute("implicit", 1);
			if (f->isDefaulted()) J.attribute("defaulted", 1);
			if (f->isTemplateInstantiation()) J.attribute("inst", 1);
			if (auto* p = f->getTemplateInstantiationPattern()) J.attribute("pat", id(p));
			if (f->isInlined()) J.attribute("inline", 1);
			J.attributeArray("params", [&] { for (auto* p : f->parameters()) J.object([&] { J.attribute("id", id(p)); J.attribute("n", p->getNameAsString()); J.attribute("t", ty(p->getType())); }); });
			if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
				J.attribute("cls", fullname(m->getParent())); J.attribute("clsid", id(m->getParent()));
				J.attribute("acc", (int)m->getAccess());
				if (m->isConst()) J.attribute("const", 1); if (m->isStatic()) J.attribute("static", 1); if (m->isVirtual()) J.attribute("virtual", 1);
				if (m->isCopyAssignmentOperator()) J.attribute("special", "copy_assign"); else if (m->isMoveAssignmentOperator()) J.attribute("special", "move_assign");
				J.attributeArray("overrides", [&] { for (auto* o : m->overridden_methods()) J.value(mangled(o)); });
			}
			if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
				J.attribute("special", c->isCopyConstructor() ? "copy_ctor" : c->isMoveConstructor() ? "move_ctor" : c->isDefaultConstructor() ? "default_ctor" : "ctor");
				if (c->isExplicit()) J.attribute("explicit", 1);
				J.attributeArray("inits", [&] { for (auto* i : c->inits()) J.object([&] {
					if (i->isAnyMemberInitializer()) { J.attribute("field", i->getAnyMember()->getNameAsString()); J.attribute("fid", id(i->getAnyMember())); }
					else if (i->isBaseInitializer()) J.attribute("base", ty(QualType(i->getBaseClass(), 0)));
					else if (i->isDelegatingInitializer()) J.attribute("delegate", 1);
					J.attribute("written", i->isWritten());
					J.attributeBegin("e"); stmt(i->getInit()); J.attributeEnd();
				}); });
			}
			if (isa<CXXDestructorDecl>(f)) J.attribute("special", "dtor");
			J.attributeBegin("body"); stmt(f->getBody()); J.attributeEnd();
		});
	}

	void record(const CXXRecordDecl* r) {
		J.object([&] {
			J.attribute("id", id(r)); J.attribute("n", r->getNameAsString()); J.attribute("q", qname(r)); J.attribute("full", fullname(r)); J.attribute("t", ty(C.getTypeDeclType(r)));
			J.attribute("file", file(r->getLocation())); J.attribute("l", line(r->getLocation()));
			if (r->isLambda()) J.attribute("lambda", 1);
			if (r->isUnion()) J.attribute("union", 1);
			if (r->isPolymorphic()) J.attribute("poly", 1);
			if (r->isAbstract()) J.attribute("abstract", 1);
			if (r->isTriviallyCopyable()) J.attribute("tc", 1);
			if (isa<ClassTemplateSpecializationDecl>(r)) J.attribute("inst", 1);
			J.attributeArray("bases", [&] { for (auto& b : r->bases()) J.object([&] { J.attribute("t", ty(b.getType())); J.attribute("acc", (int)b.getAccessSpecifier()); }); });
			J.attributeArray("fields", [&] { for (auto* f : r->fields()) J.object([&] {
				J.attribute("id", id(f)); J.attribute("n", f->getNameAsString()); J.attribute("t", ty(f->getType())); J.attribute("acc", (int)f->getAccess());
				if (f->isMutable()) J.attribute("mutable", 1); if (f->hasInClassInitializer()) J.attribute("init", 1);
				if (!r->isInvalidDecl() && r->isCompleteDefinition()) J.attribute("off", (int64_t)C.getASTRecordLayout(r).getFieldOffset(f->getFieldIndex()) / 8);
			}); });
			J.attributeArray("methods", [&] { for (auto* m : r->methods()) J.object([&] {
				J.attribute("n", m->getNameAsString()); J.attribute("m", mangled(m)); J.attribute("ret", ty(m->getReturnType())); J.attribute("acc", (int)m->getAccess()); J.attribute("l", line(m->getLocation()));
				if (m->isConst()) J.attribute("const", 1); if (m->isStatic()) J.attribute("static", 1); if (m->isVirtual()) J.attribute("virtual", 1); if (m->isPureVirtual()) J.attribute("pure", 1);
				if (m->isImplicit()) J.attribute("implicit", 1); if (m->isDeleted()) J.attribute("deleted", 1); if (m->isDefaulted()) J.attribute("defaulted", 1); if (m->isUserProvided()) J.attribute("user", 1);
				if (m->getRefQualifier() == RQ_LValue) J.attribute("rq", "&"); else if (m->getRefQualifier() == RQ_RValue) J.attribute("rq", "&&");
				J.attributeArray("params", [&] { for (auto* p : m->parameters()) J.value(ty(p->getType())); });
				if (m->isCopyAssignmentOperator()) J.attribute("special", "copy_assign"); else if (m->isMoveAssignmentOperator()) J.attribute("special", "move_assign");
				if (auto* c = dyn_cast<CXXConstructorDecl>(m)) { J.attribute("special", c->isCopyConstructor() ? "copy_ctor" : c->isMoveConstructor() ? "move_ctor" : c->isDefaultConstructor() ? "default_ctor" : "ctor"); if (c->isExplicit()) J.attribute("explicit", 1); }
				if (auto* c = dyn_cast<CXXConversionDecl>(m)) { J.attribute("special", "conv"); if (c->isExplicit()) J.attribute("explicit", 1); }
				if (isa<CXXDestructorDecl>(m)) J.attribute("special", "dtor");
			}); });
		});
	}

	void run() {
		TraverseDecl(C.getTranslationUnitDecl());
		J.objectBegin();
		J.attributeArray("functions", [&] { for (auto* f : funcs) function(f); });
		J.attributeArray("records", [&] { for (auto* r : recs) record(r); });
		J.attributeArray("enums", [&] { for (auto* e : enums) J.object([&] { J.attribute("q", qname(e)); J.attribute("t", ty(C.getTypeDeclType(e))); J.attribute("file", file(e->getLocation())); J.attribute("l", line(e->getLocation())); J.attribute("scoped", e->isScoped()); J.attributeArray("vals", [&] { for (auto* c : e->enumerators()) J.array([&] { J.value(c->getNameAsString()); J.value(iv(c->getInitVal())); }); }); }); });
		J.attributeArray("globals", [&] { for (auto* v : vars) J.object([&] {
			J.attribute("q", qname(v)); J.attribute("n", v->getNameAsString()); J.attribute("t", ty(v->getType())); J.attribute("file", file(v->getLocation())); J.attribute("l", line(v->getLocation())); J.attribute("id", id(v));
			J.attribute("const", v->getType().isConstQualified()); J.attribute("constexpr", v->isConstexpr()); J.attribute("tls", v->getTLSKind() != VarDecl::TLS_None); J.attribute("def", v->isThisDeclarationADefinition() != VarDecl::DeclarationOnly); J.attribute("slocal", v->isStaticLocal()); J.attribute("smember", v->isStaticDataMember());
			if (v->getInit() && !v->getInit()->isValueDependent()) { J.attributeBegin("init"); stmt(v->getInit()); J.attributeEnd(); }
		}); });
		J.objectEnd();
	}
};

struct Consumer : ASTConsumer {
	void HandleTranslationUnit(ASTContext& C) override {
		if (C.getDiagnostics().hasErrorOccurred()) return;
		std::error_code ec; raw_fd_ostream os(gOut, ec);
		json::OStream J(os);
		Printer p(C, J); p.run();
		os << "\n";
		gParsed = true;
	}
};
struct Action : ASTFrontendAction {
	std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Consumer>(); }
};

int main(int argc, char** argv) {
	std::vector<std::string> flags; std::string src; int i = 1;
	for (; i < argc; ++i) {
		std::string a = argv[i];
		if (a == "--") { ++i; break; }
		if (a == "-o") gOut = argv[++i]; else if (a == "-root") gRoots.push_back(argv[++i]); else src = a;
	}
	for (; i < argc; ++i) flags.push_back(argv[i]);
	tooling::FixedCompilationDatabase db(".", flags);
	tooling::ClangTool tool(db, { src });
	int r = tool.run(tooling::newFrontendActionFactory<Action>().get());
	return r == 0 && gParsed ? 0 : 2;
}
