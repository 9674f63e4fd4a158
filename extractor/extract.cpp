// Extracts the resolved syntax tree of every function defined under a root directory as JSON.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>
#include <string>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string Root, OutFile;
static std::set<std::string> StdBodies; // std algorithms exported on demand

struct Ex
{
    ASTContext&                   C;
    ASTNameGenerator              NG;
    PrintingPolicy                PP;
    std::map<const Decl*, int>    ids;
    std::map<const FunctionDecl*, std::string> fnames;
    std::vector<const FunctionDecl*> pending;
    std::set<const FunctionDecl*> seenExtra;

    Ex(ASTContext& c) : C(c), NG(c), PP(c.getPrintingPolicy())
    {
	PP.SuppressTagKeyword = true;
	PP.Bool = true;
	PP.SuppressInlineNamespace = true;
	PP.FullyQualifiedName = true;
	PP.PrintCanonicalTypes = true;
    }
    int id(const Decl* d)
    {
	d = d->getCanonicalDecl();
	auto it = ids.find(d);
	if (it != ids.end())
	    return it->second;
	int n = ids.size() + 1;
	ids[d] = n;
	return n;
    }
    std::string ty(QualType t)
    {
	if (t.isNull())
	    return "";
	return t.getCanonicalType().getAsString(PP);
    }
    std::string fname(const FunctionDecl* f)
    {
	f = f->getCanonicalDecl();
	auto it = fnames.find(f);
	if (it != fnames.end())
	    return it->second;
	std::string n;
	if (!C.getLangOpts().CPlusPlus)
	    n = f->getNameAsString();
	else if (auto* M = dyn_cast<CXXConstructorDecl>(f))
	{
	    n = NG.getName(f);
	}
	else
	    n = NG.getName(f);
	if (n.empty())
	    n = f->getQualifiedNameAsString();
	if (!f->isExternallyVisible() && !n.empty())
	{
	    std::string fl = file(f->getLocation());
	    n += "@" + fl.substr(fl.rfind('/') + 1);
	    if (auto* m = dyn_cast<CXXMethodDecl>(f))
		if (m->getParent()->isLambda())
		    n += ":" + std::to_string(line(f->getLocation())) + ":" + std::to_string(id(f));
	}
	fnames[f] = n;
	return n;
    }
    // A field's name, qualified by its class if it hides a field of a base class.
    std::string fieldname(const FieldDecl* f)
    {
	std::string n = f->getNameAsString();
	if (auto* r = dyn_cast<CXXRecordDecl>(f->getParent()))
	{
	    bool hides = false;
	    if (r->hasDefinition() && !n.empty())
		r->forallBases(
		    [&](const CXXRecordDecl* b)
		    {
			for (auto* bf : b->fields())
			    hides |= bf->getNameAsString() == n;
			return true;
		    });
	    if (hides)
		return n + "@" + r->getNameAsString();
	}
	return n;
    }
    std::string qname(const NamedDecl* d)
    {
	if (auto* r = dyn_cast<CXXRecordDecl>(d))
	    if (!r->isLambda())
		return ty(C.getRecordType(r));
	std::string s;
	llvm::raw_string_ostream os(s);
	PrintingPolicy P = PP;
	d->printQualifiedName(os, P);
	return os.str();
    }
    int line(SourceLocation l) { return C.getSourceManager().getExpansionLineNumber(l); }
    std::string file(SourceLocation l)
    {
	auto& SM = C.getSourceManager();
	auto  F = SM.getFileEntryRefForID(SM.getFileID(SM.getExpansionLoc(l)));
	if (!F)
	    return "";
	llvm::StringRef rp = F->getFileEntry().tryGetRealPathName();
	return rp.empty() ? F->getName().str() : rp.str();
    }
    bool inRoot(SourceLocation l)
    {
	if (l.isInvalid())
	    return false;
	std::string f = file(l);
	return f.compare(0, Root.size(), Root) == 0;
    }

    Object node(const char* k, const Stmt* s)
    {
	Object o;
	o["k"] = k;
	if (s)
	    o["l"] = line(s->getBeginLoc());
	return o;
    }
    Value intv(const llvm::APSInt& v)
    {
	if (v.getSignificantBits() <= 64 && (v.isSigned() || v.getActiveBits() <= 63))
	    return Value(v.getExtValue());
	llvm::SmallString<32> s;
	v.toString(s, 10);
	return Value(("#" + s.str()).str());
    }

    Value fnref(const FunctionDecl* f)
    {
	Object o;
	o["n"] = qname(f);
	o["id"] = fname(f);
	if (auto* ta = f->getTemplateSpecializationArgs())
	{
	    Array a;
	    for (auto& t : ta->asArray())
		if (t.getKind() == TemplateArgument::Type)
		    a.push_back(ty(t.getAsType()));
		else if (t.getKind() == TemplateArgument::Pack)
		{
		    for (auto& p : t.pack_elements())
			if (p.getKind() == TemplateArgument::Type)
			    a.push_back(ty(p.getAsType()));
		}
		else if (t.getKind() == TemplateArgument::Integral)
		    a.push_back(intv(t.getAsIntegral()));
	    o["ta"] = std::move(a);
	}
	if (auto* m = dyn_cast<CXXMethodDecl>(f))
	{
	    o["cls"] = qname(m->getParent());
	    if (m->isStatic())
		o["static"] = 1;
	    if (m->isVirtual())
		o["virt"] = 1;
	    if (m->isConst())
		o["const"] = 1;
	    if (m->getParent()->isLambda())
		o["lambda"] = 1;
	}
	if (f->isNoReturn())
	    o["noret"] = 1;
	Array pr;
	for (auto* p : f->parameters())
	    pr.push_back(ty(p->getType()));
	o["pt"] = std::move(pr);
	o["rt"] = ty(f->getReturnType());
	if (f->isVariadic())
	    o["variadic"] = 1;
	const FunctionDecl* def = nullptr;
	if (f->hasBody(def) && def && inRoot(def->getLocation()))
	    need(def);
	return o;
    }
    void need(const FunctionDecl* f)
    {
	if (seenExtra.insert(f->getCanonicalDecl()).second)
	    pending.push_back(f);
    }

    Array exprs(llvm::iterator_range<CallExpr::const_arg_iterator> r)
    {
	Array a;
	for (auto* e : r)
	    a.push_back(expr(e));
	return a;
    }

    Value var(const VarDecl* v)
    {
	Object o;
	o["name"] = v->getNameAsString();
	if (v->isLocalVarDeclOrParm() && !v->isStaticLocal())
	    o["id"] = id(v);
	else if (v->isStaticLocal())
	    {
	    std::string pf;
	    if (auto* fd = dyn_cast_or_null<FunctionDecl>(v->getParentFunctionOrMethod()))
		pf = fname(fd);
	    o["id"] = "static:" + pf + ":" + v->getNameAsString();
	}
	else
	{
	    std::string n = qname(v);
	    if (!v->isExternallyVisible())
	    {
		std::string fl = file(v->getLocation());
		n += "@" + fl.substr(fl.rfind('/') + 1);
	    }
	    o["id"] = n;
	}
	o["g"] = v->hasGlobalStorage() ? 1 : 0;
	o["t"] = ty(v->getType());
	return o;
    }

    Value expr(const Expr* e)
    {
	if (!e)
	    return nullptr;
	// Constant integers
	if (!e->isValueDependent() && !e->isTypeDependent() && e->isPRValue() &&
	    e->getType()->isIntegralOrEnumerationType())
	{
	    Expr::EvalResult r;
	    if (e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects))
	    {
		Object o = node("int", e);
		o["v"] = intv(r.Val.getInt());
		o["t"] = ty(e->getType());
		const Expr* in = e->IgnoreParenImpCasts();
		if (auto* d = dyn_cast<DeclRefExpr>(in))
		    o["n"] = qname(d->getDecl());
		else if (auto* ss = dyn_cast<UnaryExprOrTypeTraitExpr>(in))
		{
		    o["n"] = "sizeof";
		    o["of"] = ty(ss->getTypeOfArgument());
		}
		return o;
	    }
	}
	switch (e->getStmtClass())
	{
	case Stmt::ParenExprClass:
	    return expr(cast<ParenExpr>(e)->getSubExpr());
	case Stmt::ExprWithCleanupsClass:
	case Stmt::ConstantExprClass:
	    return expr(cast<FullExpr>(e)->getSubExpr());
	case Stmt::MaterializeTemporaryExprClass:
	{
	    Object o = node("temp", e);
	    o["e"] = expr(cast<MaterializeTemporaryExpr>(e)->getSubExpr());
	    return o;
	}
	case Stmt::CXXBindTemporaryExprClass:
	    return expr(cast<CXXBindTemporaryExpr>(e)->getSubExpr());
	case Stmt::SubstNonTypeTemplateParmExprClass:
	    return expr(cast<SubstNonTypeTemplateParmExpr>(e)->getReplacement());
	case Stmt::CXXDefaultArgExprClass:
	    return expr(cast<CXXDefaultArgExpr>(e)->getExpr());
	case Stmt::CXXDefaultInitExprClass:
	    return expr(cast<CXXDefaultInitExpr>(e)->getExpr());
	case Stmt::CXXStdInitializerListExprClass:
	{
	    Object o = node("stdinit", e);
	    o["t"] = ty(e->getType());
	    o["e"] = expr(cast<CXXStdInitializerListExpr>(e)->getSubExpr());
	    return o;
	}
	case Stmt::IntegerLiteralClass:
	case Stmt::CXXBoolLiteralExprClass:
	case Stmt::CharacterLiteralClass:
	    break;
	case Stmt::FloatingLiteralClass:
	{
	    Object o = node("float", e);
	    o["v"] = cast<FloatingLiteral>(e)->getValueAsApproximateDouble();
	    return o;
	}
	case Stmt::StringLiteralClass:
	{
	    Object o = node("str", e);
	    auto*  s = cast<StringLiteral>(e);
	    std::string b = s->getBytes().str();
	    o["v"] = llvm::json::isUTF8(b) ? b : llvm::json::fixUTF8(b);
	    return o;
	}
	case Stmt::PredefinedExprClass:
	{
	    Object o = node("str", e);
	    o["v"] = "__func__";
	    return o;
	}
	case Stmt::CXXNullPtrLiteralExprClass:
	case Stmt::GNUNullExprClass:
	    return node("null", e);
	case Stmt::CXXThisExprClass:
	    return node("this", e);
	case Stmt::DeclRefExprClass:
	{
	    auto* d = cast<DeclRefExpr>(e)->getDecl();
	    if (auto* f = dyn_cast<FunctionDecl>(d))
	    {
		Object o = node("fn", e);
		o["f"] = fnref(f);
		return o;
	    }
	    if (auto* v = dyn_cast<VarDecl>(d))
	    {
		Object o = node("var", e);
		o["v"] = var(v);
		return o;
	    }
	    if (auto* b = dyn_cast<BindingDecl>(d))
	    {
		Object o = node("var", e);
		Object vv;
		vv["name"] = b->getNameAsString();
		vv["id"] = id(b);
		vv["t"] = ty(b->getType());
		vv["binding"] = 1;
		o["v"] = std::move(vv);
		return o;
	    }
	    Object o = node("unk", e);
	    o["w"] = "declref";
	    return o;
	}
	case Stmt::MemberExprClass:
	{
	    auto*  m = cast<MemberExpr>(e);
	    if (auto* f = dyn_cast<FunctionDecl>(m->getMemberDecl()))
	    {
		Object o = node("fn", e);
		o["f"] = fnref(f);
		return o;
	    }
	    if (auto* v = dyn_cast<VarDecl>(m->getMemberDecl()))
	    {
		Object o = node("var", e);
		o["v"] = var(v);
		return o;
	    }
	    Object o = node("mem", e);
	    o["b"] = expr(m->getBase());
	    o["f"] = m->getMemberDecl()->getNameAsString();
	    if (auto* fd = dyn_cast<FieldDecl>(m->getMemberDecl()))
	    {
		o["f"] = fieldname(fd);
		o["cls"] = qname(fd->getParent());
		if (fd->getDeclName().isEmpty())
		    o["f"] = "anon" + std::to_string(fd->getFieldIndex());
		if (fd->isBitField())
		    o["bits"] = (int)fd->getBitWidthValue(C);
	    }
	    o["a"] = m->isArrow() ? 1 : 0;
	    o["t"] = ty(m->getType());
	    return o;
	}
	case Stmt::CXXMemberCallExprClass:
	{
	    auto* c = cast<CXXMemberCallExpr>(e);
	    auto* me = dyn_cast<MemberExpr>(c->getCallee()->IgnoreParens());
	    auto* md = c->getMethodDecl();
	    if (!me || !md)
	    {
		Object o = node("unk", e);
		o["w"] = "membercall";
		return o;
	    }
	    Object o = node("call", e);
	    o["f"] = fnref(md);
	    o["o"] = expr(me->getBase());
	    o["oa"] = me->isArrow() ? 1 : 0;
	    o["ot"] = ty(me->getBase()->getType());
	    o["a"] = exprs(c->arguments());
	    if (md->isVirtual() && !me->hasQualifier())
		o["v"] = 1;
	    o["t"] = ty(c->getType());
	    return o;
	}
	case Stmt::CXXOperatorCallExprClass:
	{
	    auto* c = cast<CXXOperatorCallExpr>(e);
	    auto* fd = c->getDirectCallee();
	    if (!fd)
	    {
		Object o = node("unk", e);
		o["w"] = "opcall";
		return o;
	    }
	    Object o = node("call", e);
	    o["f"] = fnref(fd);
	    auto* md = dyn_cast<CXXMethodDecl>(fd);
	    Array a;
	    unsigned s = 0;
	    if (md && !md->isStatic())
	    {
		o["o"] = expr(c->getArg(0));
		o["oa"] = 0;
		o["ot"] = ty(c->getArg(0)->getType());
		s = 1;
	    }
	    for (unsigned i = s; i < c->getNumArgs(); i++)
		a.push_back(expr(c->getArg(i)));
	    o["a"] = std::move(a);
	    o["t"] = ty(c->getType());
	    return o;
	}
	case Stmt::CallExprClass:
	case Stmt::UserDefinedLiteralClass:
	{
	    auto* c = cast<CallExpr>(e);
	    auto* fd = c->getDirectCallee();
	    Object o = node("call", e);
	    if (fd)
		o["f"] = fnref(fd);
	    else
		o["fp"] = expr(c->getCallee());
	    o["a"] = exprs(c->arguments());
	    o["t"] = ty(c->getType());
	    return o;
	}
	case Stmt::CXXConstructExprClass:
	case Stmt::CXXTemporaryObjectExprClass:
	{
	    auto*  c = cast<CXXConstructExpr>(e);
	    Object o = node("ctor", e);
	    o["f"] = fnref(c->getConstructor());
	    o["cls"] = qname(c->getConstructor()->getParent());
	    o["t"] = ty(c->getType());
	    Array a;
	    for (auto* x : c->arguments())
		a.push_back(expr(x));
	    o["a"] = std::move(a);
	    if (c->getConstructor()->isCopyOrMoveConstructor())
		o["copy"] = 1;
	    if (c->isListInitialization())
		o["list"] = 1;
	    return o;
	}
	case Stmt::CXXInheritedCtorInitExprClass:
	{
	    Object o = node("unk", e);
	    o["w"] = "inhctor";
	    return o;
	}
	case Stmt::CXXScalarValueInitExprClass:
	case Stmt::ImplicitValueInitExprClass:
	{
	    Object o = node("zero", e);
	    o["t"] = ty(e->getType());
	    return o;
	}
	case Stmt::CXXNewExprClass:
	{
	    auto*  n = cast<CXXNewExpr>(e);
	    Object o = node("new", e);
	    o["t"] = ty(n->getAllocatedType());
	    if (n->isArray())
		o["arr"] = n->getArraySize() ? expr(*n->getArraySize()) : Value(nullptr);
	    if (n->hasInitializer())
		o["i"] = expr(n->getInitializer());
	    return o;
	}
	case Stmt::CXXDeleteExprClass:
	{
	    Object o = node("delete", e);
	    o["e"] = expr(cast<CXXDeleteExpr>(e)->getArgument());
	    return o;
	}
	case Stmt::ArraySubscriptExprClass:
	{
	    auto*  a = cast<ArraySubscriptExpr>(e);
	    Object o = node("idx", e);
	    o["b"] = expr(a->getBase());
	    o["i"] = expr(a->getIdx());
	    o["t"] = ty(e->getType());
	    return o;
	}
	case Stmt::UnaryOperatorClass:
	{
	    auto*  u = cast<UnaryOperator>(e);
	    Object o = node("un", e);
	    std::string op = UnaryOperator::getOpcodeStr(u->getOpcode()).str();
	    if (u->isPostfix())
		op = "p" + op;
	    o["op"] = op;
	    o["e"] = expr(u->getSubExpr());
	    o["t"] = ty(u->getType());
	    return o;
	}
	case Stmt::BinaryOperatorClass:
	case Stmt::CompoundAssignOperatorClass:
	{
	    auto*  b = cast<BinaryOperator>(e);
	    Object o = node(b->isAssignmentOp() ? "assign" : "bin", e);
	    o["op"] = b->getOpcodeStr().str();
	    o["x"] = expr(b->getLHS());
	    o["y"] = expr(b->getRHS());
	    o["t"] = ty(b->getType());
	    if (auto* ca = dyn_cast<CompoundAssignOperator>(e))
		o["ct"] = ty(ca->getComputationResultType());
	    return o;
	}
	case Stmt::ConditionalOperatorClass:
	{
	    auto*  c = cast<ConditionalOperator>(e);
	    Object o = node("cond", e);
	    o["c"] = expr(c->getCond());
	    o["x"] = expr(c->getTrueExpr());
	    o["y"] = expr(c->getFalseExpr());
	    return o;
	}
	case Stmt::BinaryConditionalOperatorClass:
	{
	    auto*  c = cast<BinaryConditionalOperator>(e);
	    Object o = node("bcond", e);
	    o["c"] = expr(c->getCommon());
	    o["y"] = expr(c->getFalseExpr());
	    return o;
	}
	case Stmt::OpaqueValueExprClass:
	    return expr(cast<OpaqueValueExpr>(e)->getSourceExpr());
	case Stmt::ImplicitCastExprClass:
	case Stmt::CStyleCastExprClass:
	case Stmt::CXXStaticCastExprClass:
	case Stmt::CXXReinterpretCastExprClass:
	case Stmt::CXXConstCastExprClass:
	case Stmt::CXXFunctionalCastExprClass:
	{
	    auto* c = cast<CastExpr>(e);
	    switch (c->getCastKind())
	    {
	    case CK_LValueToRValue:
	    {
		Object o = node("ld", e);
		o["e"] = expr(c->getSubExpr());
		return o;
	    }
	    case CK_NoOp:
	    case CK_FunctionToPointerDecay:
	    case CK_ConstructorConversion:
	    case CK_UserDefinedConversion:
	    case CK_DerivedToBase:
	    case CK_UncheckedDerivedToBase:
	    case CK_BuiltinFnToFnPtr:
	    case CK_AtomicToNonAtomic:
	    case CK_NonAtomicToAtomic:
		return expr(c->getSubExpr());
	    case CK_ToVoid:
	    {
		Object o = node("void", e);
		o["e"] = expr(c->getSubExpr());
		return o;
	    }
	    case CK_NullToPointer:
	    {
		if (!c->getSubExpr()->HasSideEffects(C))
		    return node("null", e);
		Object o = node("cast", e);
		o["ck"] = c->getCastKindName();
		o["e"] = expr(c->getSubExpr());
		o["t"] = ty(c->getType());
		o["ft"] = ty(c->getSubExpr()->getType());
		return o;
	    }
	    default:
	    {
		Object o = node("cast", e);
		o["ck"] = c->getCastKindName();
		o["e"] = expr(c->getSubExpr());
		o["t"] = ty(c->getType());
		o["ft"] = ty(c->getSubExpr()->getType());
		return o;
	    }
	    }
	}
	case Stmt::InitListExprClass:
	{
	    auto* il = cast<InitListExpr>(e);
	    if (!il->isSemanticForm() && il->getSemanticForm())
		il = il->getSemanticForm();
	    if (il->isTransparent())
		return expr(il->getInit(0));
	    Object o = node("ilist", e);
	    o["t"] = ty(il->getType());
	    Array a;
	    for (auto* x : il->inits())
		a.push_back(expr(x));
	    o["a"] = std::move(a);
	    if (il->hasArrayFiller())
		o["fill"] = 1;
	    return o;
	}
	case Stmt::CXXParenListInitExprClass:
	{
	    Object o = node("ilist", e);
	    o["t"] = ty(e->getType());
	    Array a;
	    for (auto* x : cast<CXXParenListInitExpr>(e)->getInitExprs())
		a.push_back(expr(x));
	    o["a"] = std::move(a);
	    return o;
	}
	case Stmt::CompoundLiteralExprClass:
	    return expr(cast<CompoundLiteralExpr>(e)->getInitializer());
	case Stmt::LambdaExprClass:
	{
	    auto*  le = cast<LambdaExpr>(e);
	    Object o = node("lambda", e);
	    Array  caps;
	    auto   it = le->capture_init_begin();
	    for (auto& cp : le->captures())
	    {
		Object c;
		if (cp.capturesThis())
		    c["this"] = 1;
		else if (cp.capturesVariable())
		{
		    if (auto* cv = dyn_cast<VarDecl>(cp.getCapturedVar()))
			c["v"] = var(cv);
		    c["ref"] = cp.getCaptureKind() == LCK_ByRef ? 1 : 0;
		    if (*it)
			c["i"] = expr(*it);
		}
		++it;
		caps.push_back(std::move(c));
	    }
	    o["caps"] = std::move(caps);
	    const FunctionDecl* op = le->getCallOperator();
	    if (auto* ft = op->getDescribedFunctionTemplate())
	    {
		// a generic lambda: its (first) instantiation has the types
		for (auto* sp : ft->specializations())
		    if (sp->getBody())
		    {
			op = sp;
			break;
		    }
	    }
	    o["fn"] = fnbody(op, true);
	    o["cls"] = fname(le->getCallOperator());
	    return o;
	}
	case Stmt::StmtExprClass:
	{
	    Object o = node("stmtexpr", e);
	    o["s"] = stmt(cast<StmtExpr>(e)->getSubStmt());
	    return o;
	}
	case Stmt::UnaryExprOrTypeTraitExprClass:
	{
	    auto*  u = cast<UnaryExprOrTypeTraitExpr>(e);
	    Object o = node("sizeof", e);
	    o["of"] = ty(u->getTypeOfArgument());
	    return o;
	}
	case Stmt::VAArgExprClass:
	{
	    Object o = node("unk", e);
	    o["w"] = "va_arg";
	    return o;
	}
	case Stmt::SourceLocExprClass:
	{
	    Object o = node("unk", e);
	    o["w"] = "srcloc";
	    return o;
	}
	case Stmt::ArrayInitLoopExprClass:
	case Stmt::ArrayInitIndexExprClass:
	default:
	    break;
	}
	Object o = node("unk", e);
	o["w"] = e->getStmtClassName();
	o["t"] = ty(e->getType());
	Array a;
	for (auto* ch : e->children())
	    if (auto* x = dyn_cast_or_null<Expr>(ch))
		a.push_back(expr(x));
	o["a"] = std::move(a);
	return o;
    }

    Value vardecl(const VarDecl* v, const Stmt* s)
    {
	Object o = node("decl", s);
	o["v"] = var(v);
	if (v->getInit())
	    o["i"] = expr(v->getInit());
	if (v->isStaticLocal())
	    o["static"] = 1;
	if (auto* dd = dyn_cast<DecompositionDecl>(v))
	{
	    Array b;
	    for (auto* bd : dd->bindings())
	    {
		Object bo;
		bo["name"] = bd->getNameAsString();
		bo["id"] = id(bd);
		if (auto* hv = bd->getHoldingVar())
		    bo["h"] = expr(hv->getInit());
		else
		    bo["e"] = expr(bd->getBinding());
		b.push_back(std::move(bo));
	    }
	    o["bind"] = std::move(b);
	}
	return o;
    }

    Value stmt(const Stmt* s)
    {
	if (!s)
	    return nullptr;
	if (auto* e = dyn_cast<Expr>(s))
	{
	    Object o = node("expr", s);
	    o["e"] = expr(e);
	    return o;
	}
	switch (s->getStmtClass())
	{
	case Stmt::CompoundStmtClass:
	{
	    Object o = node("block", s);
	    Array  a;
	    for (auto* x : cast<CompoundStmt>(s)->body())
		a.push_back(stmt(x));
	    o["s"] = std::move(a);
	    return o;
	}
	case Stmt::DeclStmtClass:
	{
	    auto* ds = cast<DeclStmt>(s);
	    Object o = node("block", s);
	    o["ds"] = 1;
	    Array  a;
	    for (auto* d : ds->decls())
		if (auto* v = dyn_cast<VarDecl>(d))
		    a.push_back(vardecl(v, s));
	    if (a.size() == 1)
		return std::move(a[0]);
	    o["s"] = std::move(a);
	    return o;
	}
	case Stmt::IfStmtClass:
	{
	    auto*  i = cast<IfStmt>(s);
	    Object o = node("if", s);
	    if (i->getInit())
		o["init"] = stmt(i->getInit());
	    if (i->getConditionVariable())
		o["cv"] = vardecl(i->getConditionVariable(), s);
	    if (i->isConstexpr())
	    {
		Expr::EvalResult r;
		if (i->getCond()->EvaluateAsInt(r, C))
		{
		    const Stmt* t = r.Val.getInt().getBoolValue() ? i->getThen() : i->getElse();
		    return t ? stmt(t) : Value(node("nop", s));
		}
	    }
	    o["c"] = expr(i->getCond());
	    o["x"] = stmt(i->getThen());
	    if (i->getElse())
		o["y"] = stmt(i->getElse());
	    return o;
	}
	case Stmt::WhileStmtClass:
	{
	    auto*  w = cast<WhileStmt>(s);
	    Object o = node("while", s);
	    if (w->getConditionVariable())
		o["cv"] = vardecl(w->getConditionVariable(), s);
	    o["c"] = expr(w->getCond());
	    o["b"] = stmt(w->getBody());
	    return o;
	}
	case Stmt::DoStmtClass:
	{
	    auto*  w = cast<DoStmt>(s);
	    Object o = node("do", s);
	    o["c"] = expr(w->getCond());
	    o["b"] = stmt(w->getBody());
	    return o;
	}
	case Stmt::ForStmtClass:
	{
	    auto*  f = cast<ForStmt>(s);
	    Object o = node("for", s);
	    if (f->getInit())
		o["i"] = stmt(f->getInit());
	    if (f->getConditionVariable())
		o["cv"] = vardecl(f->getConditionVariable(), s);
	    if (f->getCond())
		o["c"] = expr(f->getCond());
	    if (f->getInc())
		o["n"] = expr(f->getInc());
	    o["b"] = stmt(f->getBody());
	    return o;
	}
	case Stmt::CXXForRangeStmtClass:
	{
	    auto*  f = cast<CXXForRangeStmt>(s);
	    Object o = node("rfor", s);
	    if (f->getInit())
		o["init"] = stmt(f->getInit());
	    o["r"] = expr(f->getRangeInit());
	    o["rt"] = ty(f->getRangeInit()->getType());
	    o["v"] = vardecl(f->getLoopVariable(), s);
	    o["b"] = stmt(f->getBody());
	    return o;
	}
	case Stmt::SwitchStmtClass:
	{
	    auto*  w = cast<SwitchStmt>(s);
	    Object o = node("switch", s);
	    if (w->getInit())
		o["init"] = stmt(w->getInit());
	    if (w->getConditionVariable())
		o["cv"] = vardecl(w->getConditionVariable(), s);
	    o["c"] = expr(w->getCond());
	    o["b"] = stmt(w->getBody());
	    return o;
	}
	case Stmt::CaseStmtClass:
	{
	    auto*  c = cast<CaseStmt>(s);
	    Object o = node("case", s);
	    o["v"] = expr(c->getLHS());
	    if (c->getRHS())
		o["h"] = expr(c->getRHS());
	    o["s"] = stmt(c->getSubStmt());
	    return o;
	}
	case Stmt::DefaultStmtClass:
	{
	    Object o = node("default", s);
	    o["s"] = stmt(cast<DefaultStmt>(s)->getSubStmt());
	    return o;
	}
	case Stmt::BreakStmtClass:
	    return node("break", s);
	case Stmt::ContinueStmtClass:
	    return node("continue", s);
	case Stmt::NullStmtClass:
	    return node("nop", s);
	case Stmt::ReturnStmtClass:
	{
	    Object o = node("return", s);
	    if (auto* v = cast<ReturnStmt>(s)->getRetValue())
		o["e"] = expr(v);
	    return o;
	}
	case Stmt::AttributedStmtClass:
	    return stmt(cast<AttributedStmt>(s)->getSubStmt());
	case Stmt::LabelStmtClass:
	{
	    Object o = node("label", s);
	    o["n"] = cast<LabelStmt>(s)->getName();
	    o["s"] = stmt(cast<LabelStmt>(s)->getSubStmt());
	    return o;
	}
	case Stmt::GotoStmtClass:
	{
	    Object o = node("goto", s);
	    o["n"] = cast<GotoStmt>(s)->getLabel()->getNameAsString();
	    return o;
	}
	default:
	{
	    Object o = node("unkstmt", s);
	    o["w"] = s->getStmtClassName();
	    return o;
	}
	}
    }

    Value fnbody(const FunctionDecl* f, bool inl = false)
    {
	Object o;
	o["id"] = fname(f);
	o["n"] = qname(f);
	o["file"] = file(f->getLocation());
	o["line"] = line(f->getLocation());
	o["end"] = line(f->getEndLoc());
	o["rt"] = ty(f->getReturnType());
	if (f->getStorageClass() == SC_Static)
	    o["sc"] = "static";
	if (f->isImplicit() || f->isDefaulted())
	    o["implicit"] = 1;
	Array ps;
	for (auto* p : f->parameters())
	    ps.push_back(var(p));
	o["p"] = std::move(ps);
	if (auto* ta = f->getTemplateSpecializationArgs())
	{
	    Array a;
	    for (auto& t : ta->asArray())
		if (t.getKind() == TemplateArgument::Type)
		    a.push_back(ty(t.getAsType()));
	    o["ta"] = std::move(a);
	}
	if (auto* m = dyn_cast<CXXMethodDecl>(f))
	{
	    o["cls"] = qname(m->getParent());
	    o["mn"] = m->getNameAsString();
	    if (m->isVirtual())
		o["virt"] = 1;
	    if (m->isStatic())
		o["static"] = 1;
	    Array ov;
	    for (auto* b : m->overridden_methods())
		ov.push_back(fname(b));
	    if (!ov.empty())
		o["ov"] = std::move(ov);
	}
	if (auto* cd = dyn_cast<CXXConstructorDecl>(f))
	{
	    o["ctor"] = 1;
	    Array in;
	    for (auto* i : cd->inits())
	    {
		Object x;
		if (i->isAnyMemberInitializer())
		    x["m"] = fieldname(i->getAnyMember());
		else if (i->isBaseInitializer())
		    x["base"] = ty(QualType(i->getBaseClass(), 0));
		else if (i->isDelegatingInitializer())
		    x["deleg"] = 1;
		x["e"] = expr(i->getInit());
		in.push_back(std::move(x));
	    }
	    o["inits"] = std::move(in);
	}
	if (isa<CXXDestructorDecl>(f))
	    o["dtor"] = 1;
	o["body"] = stmt(f->getBody());
	return o;
    }
};

struct V : RecursiveASTVisitor<V>
{
    Ex&    X;
    Array  fns, classes, enums, globals, decls;
    std::set<const Decl*> seen;
    V(Ex& x) : X(x) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }

    void add(const FunctionDecl* f)
    {
	if (f->isDependentContext() || !f->doesThisDeclarationHaveABody())
	    return;
	if (!seen.insert(f).second)
	    return;
	fns.push_back(X.fnbody(f));
    }
    bool VisitFunctionDecl(FunctionDecl* f)
    {
	if (!X.inRoot(f->getLocation()))
	    return true;
	if (auto* m = dyn_cast<CXXMethodDecl>(f))
	    if (m->getParent()->isLambda())
		return true;
	add(f);
	if (!f->isDependentContext())
	{
	    Object o;
	    o["id"] = X.fname(f);
	    o["n"] = X.qname(f);
	    o["line"] = X.line(f->getLocation());
	    o["file"] = X.file(f->getLocation());
	    decls.push_back(std::move(o));
	}
	return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* r)
    {
	if (!r->isThisDeclarationADefinition() || r->isDependentContext() || r->isLambda())
	    return true;
	if (!X.inRoot(r->getLocation()))
	    return true;
	Object o;
	o["n"] = X.qname(r);
	o["file"] = X.file(r->getLocation());
	o["line"] = X.line(r->getLocation());
	Array b;
	for (auto& bs : r->bases())
	    b.push_back(X.ty(bs.getType()));
	o["bases"] = std::move(b);
	Array fs;
	auto& L = X.C.getASTRecordLayout(r);
	int i = 0;
	for (auto* f : r->fields())
	{
	    Object fo;
	    fo["n"] = X.fieldname(f);
	    fo["t"] = X.ty(f->getType());
	    fo["off"] = (int64_t)L.getFieldOffset(i++);
	    if (f->hasInClassInitializer() && f->getInClassInitializer())
		fo["i"] = X.expr(f->getInClassInitializer());
	    fs.push_back(std::move(fo));
	}
	o["fields"] = std::move(fs);
	o["size"] = (int64_t)L.getSize().getQuantity();
	Array ms;
	for (auto* m : r->methods())
	{
	    Object mo;
	    mo["n"] = m->getNameAsString();
	    mo["id"] = X.fname(m);
	    if (m->isVirtual())
		mo["virt"] = 1;
	    if (m->isPureVirtual())
		mo["pure"] = 1;
	    Array ov;
	    for (auto* bm : m->overridden_methods())
		ov.push_back(X.fname(bm));
	    mo["ov"] = std::move(ov);
	    Array pt;
	    for (auto* p : m->parameters())
		pt.push_back(X.ty(p->getType()));
	    mo["pt"] = std::move(pt);
	    if (m->isImplicit()) mo["implicit"] = 1;
	    if (m->isConst()) mo["const"] = 1;
	    ms.push_back(std::move(mo));
	}
	o["methods"] = std::move(ms);
	o["abstract"] = r->isAbstract() ? 1 : 0;
	classes.push_back(std::move(o));
	return true;
    }
    bool VisitRecordDecl(RecordDecl* r)
    {
	if (isa<CXXRecordDecl>(r) || !r->isThisDeclarationADefinition() || !X.inRoot(r->getLocation()))
	    return true;
	Object o;
	std::string n = X.ty(X.C.getRecordType(r));
	o["n"] = n;
	o["file"] = X.file(r->getLocation());
	o["line"] = X.line(r->getLocation());
	o["union"] = r->isUnion() ? 1 : 0;
	Array fs;
	auto& L = X.C.getASTRecordLayout(r);
	int i = 0;
	for (auto* f : r->fields())
	{
	    Object fo;
	    fo["n"] = f->getNameAsString();
	    fo["t"] = X.ty(f->getType());
	    fo["off"] = (int64_t)L.getFieldOffset(i++);
	    fo["size"] = (int64_t)X.C.getTypeSizeInChars(f->getType()).getQuantity();
	    fs.push_back(std::move(fo));
	}
	o["fields"] = std::move(fs);
	o["size"] = (int64_t)L.getSize().getQuantity();
	classes.push_back(std::move(o));
	return true;
    }
    bool VisitEnumDecl(EnumDecl* e)
    {
	if (!e->isThisDeclarationADefinition() || !X.inRoot(e->getLocation()))
	    return true;
	Object o;
	o["n"] = X.qname(e);
	o["u"] = X.ty(e->getIntegerType());
	Object v;
	Array  order;
	for (auto* c : e->enumerators())
	{
	    v[c->getNameAsString()] = X.intv(c->getInitVal());
	    order.push_back(c->getNameAsString());
	}
	o["v"] = std::move(v);
	o["order"] = std::move(order);
	enums.push_back(std::move(o));
	return true;
    }
    bool VisitVarDecl(VarDecl* v)
    {
	if (!v->hasGlobalStorage() || !X.inRoot(v->getLocation()) || v->getDeclContext()->isDependentContext())
	    return true;
	if (isa<VarTemplateDecl>(v) || v->isTemplated())
	    return true;
	Object o;
	auto vo = X.var(v);
	o["v"] = std::move(vo);
	o["line"] = X.line(v->getLocation());
	o["file"] = X.file(v->getLocation());
	if (v->getInit() && !v->isStaticLocal())
	    o["i"] = X.expr(v->getInit());
	if (v->isThisDeclarationADefinition() == VarDecl::DeclarationOnly)
	    o["ext"] = 1;
	globals.push_back(std::move(o));
	return true;
    }
};

struct Cons : ASTConsumer
{
    void HandleTranslationUnit(ASTContext& C) override
    {
	if (C.getDiagnostics().hasErrorOccurred())
	{
	    llvm::errs() << "parse errors\n";
	    exit(3);
	}
	Ex X(C);
	V  v(X);
	v.TraverseDecl(C.getTranslationUnitDecl());
	while (!X.pending.empty())
	{
	    auto* f = X.pending.back();
	    X.pending.pop_back();
	    if (auto* m = dyn_cast<CXXMethodDecl>(f))
		if (m->getParent()->isLambda())
		    continue;
	    v.add(f);
	}
	Object o;
	o["functions"] = std::move(v.fns);
	o["classes"] = std::move(v.classes);
	o["enums"] = std::move(v.enums);
	o["globals"] = std::move(v.globals);
	o["decls"] = std::move(v.decls);
	std::error_code      EC;
	llvm::raw_fd_ostream os(OutFile, EC);
	os << Value(std::move(o)) << "\n";
    }
};

struct Act : ASTFrontendAction
{
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override
    {
	return std::make_unique<Cons>();
    }
};

int main(int argc, const char** argv)
{
    // extract ROOT OUT FILE -- flags...
    if (argc < 5)
	return 2;
    Root = argv[1];
    OutFile = argv[2];
    std::string file = argv[3];
    std::vector<std::string> args;
    for (int i = 5; i < argc; i++)
	args.push_back(argv[i]);
    clang::tooling::FixedCompilationDatabase DB(Root, args);
    clang::tooling::ClangTool Tool(DB, { file });
    return Tool.run(clang::tooling::newFrontendActionFactory<Act>().get());
}
