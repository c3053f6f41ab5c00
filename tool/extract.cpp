// dbzero static-analysis front end: dumps a per-function event/CFG representation of the type-checked
// program (resolved callees, member accesses, conditions, implicit destructors) for the rule engine.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/RecordLayout.h>
#include <clang/AST/ParentMapContext.h>
#include <clang/Analysis/CFG.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Lex/Preprocessor.h>
#include <clang/Lex/PPCallbacks.h>
#include <clang/Lex/HeaderSearch.h>
#include <clang/Index/USRGeneration.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/MD5.h>
#include <llvm/Support/FileSystem.h>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <functional>

using namespace clang;

static std::string g_root;      // repository root with trailing '/'
static std::string g_out;
static std::string g_deps;

static void jstr(llvm::raw_ostream &os, llvm::StringRef s) {
    os << '"';
    for (unsigned char c : s) {
        switch (c) {
            case '"': os << "\\\""; break;
            case '\\': os << "\\\\"; break;
            case '\n': os << "\\n"; break;
            case '\t': os << "\\t"; break;
            default:
                if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); os << b; }
                else os << c;
        }
    }
    os << '"';
}

static std::string big(const llvm::APSInt &v) { llvm::SmallString<40> b; v.toString(b, 10); return std::string(b.str()); }

class Dumper {
public:
    ASTContext &ctx;
    SourceManager &sm;
    llvm::raw_ostream &out;
    PrintingPolicy pp;
    std::map<const Decl*, int> symIds;
    std::map<const RecordDecl*, bool> recDone;
    std::map<const EnumDecl*, bool> enumDone;
    std::set<const FunctionDecl*> fnDone;
    int nsym = 0;
    // per function
    std::map<const VarDecl*, int> locals;
    std::vector<const VarDecl*> localList;
    const FunctionDecl *curFn = nullptr;

    Dumper(ASTContext &c, llvm::raw_ostream &o) : ctx(c), sm(c.getSourceManager()), out(o), pp(c.getLangOpts()) {
        pp.SuppressTagKeyword = true; pp.FullyQualifiedName = true; pp.Bool = true;
    }

    std::string fileOf(SourceLocation l) {
        l = sm.getExpansionLoc(l);
        auto f = sm.getFilename(l);
        std::string s = f.str();
        // normalise
        llvm::SmallString<256> p(s);
        llvm::sys::fs::make_absolute(p);
        llvm::sys::path::remove_dots(p, true);
        return std::string(p.str());
    }
    bool inRepo(SourceLocation l) {
        if (l.isInvalid()) return false;
        static std::map<unsigned, bool> cache;
        auto e = sm.getExpansionLoc(l);
        unsigned id = sm.getFileID(e).getHashValue();
        auto it = cache.find(id);
        if (it != cache.end()) return it->second;
        std::string f = fileOf(l);
        bool r = f.compare(0, g_root.size(), g_root) == 0;
        cache[id] = r;
        return r;
    }
    int line(SourceLocation l) { return l.isValid() ? (int)sm.getExpansionLineNumber(l) : 0; }
    std::string ty(QualType t) {
        if (t.isNull()) return "";
        return t.getCanonicalType().getAsString(pp);
    }
    std::string usr(const Decl *d) {
        llvm::SmallString<128> b;
        if (index::generateUSRForDecl(d, b)) {
            return "?" + std::to_string((uintptr_t)d);
        }
        std::string r(b.str());
        // lambdas of one template instantiation share their USR: tell them apart by place
        for (const DeclContext *dc = d->getDeclContext(); dc && !dc->isTranslationUnit(); dc = dc->getParent())
            if (auto *cr = dyn_cast<CXXRecordDecl>(dc); cr && cr->isLambda())
                r += "~" + std::to_string(sm.getFileOffset(sm.getExpansionLoc(cr->getBeginLoc())));
        return r;
    }
    std::string qname(const NamedDecl *d) {
        std::string s;
        llvm::raw_string_ostream o(s);
        // qualified name without template arguments
        std::vector<std::string> parts;
        const DeclContext *dc = d->getDeclContext();
        parts.push_back(d->getNameAsString());
        if (parts.back().empty()) parts.back() = "(anon)";
        while (dc && !dc->isTranslationUnit()) {
            if (auto *ns = dyn_cast<NamespaceDecl>(dc)) {
                if (!ns->isInlineNamespace()) parts.push_back(ns->isAnonymousNamespace() ? "(anon)" : ns->getNameAsString());
            } else if (auto *rd = dyn_cast<RecordDecl>(dc)) {
                if (auto *cr = dyn_cast<CXXRecordDecl>(rd); cr && cr->isLambda()) parts.push_back("(lambda)");
                else parts.push_back(rd->getNameAsString().empty() ? "(anon)" : rd->getNameAsString());
            } else if (auto *fd = dyn_cast<FunctionDecl>(dc)) {
                parts.push_back(fd->getNameAsString());
            } else if (auto *ed = dyn_cast<EnumDecl>(dc)) {
                parts.push_back(ed->getNameAsString());
            }
            dc = dc->getParent();
        }
        for (size_t i = parts.size(); i-- > 0;) { o << parts[i]; if (i) o << "::"; }
        return o.str();
    }

    // symbol table entry for a function
    int fsym(const FunctionDecl *f) {
        auto *c = f->getCanonicalDecl();
        auto it = symIds.find(c);
        if (it != symIds.end()) return it->second;
        int id = nsym++;
        symIds[c] = id;
        std::string s; llvm::raw_string_ostream o(s);
        o << "{\"k\":\"sym\",\"i\":" << id << ",\"u\":"; jstr(o, usr(c));
        o << ",\"q\":"; jstr(o, qname(c));
        if (auto *m = dyn_cast<CXXMethodDecl>(c)) {
            o << ",\"cls\":"; jstr(o, clsName(m->getParent()));
            if (m->isVirtual()) o << ",\"virt\":1";
            if (m->isStatic()) o << ",\"static\":1";
            if (m->isConst()) o << ",\"const\":1";
            if (m->getParent()->isLambda()) o << ",\"lam\":1";
            if (auto *cd = dyn_cast<CXXConstructorDecl>(m)) {
                o << ",\"ctor\":1"; if (cd->isCopyOrMoveConstructor()) o << ",\"cpmv\":1";
            }
            if (isa<CXXDestructorDecl>(m)) o << ",\"dtor\":1";
            if (auto *cv = dyn_cast<CXXConversionDecl>(m)) { (void)cv; o << ",\"conv\":1"; }
        }
        if (c->isNoReturn()) o << ",\"noret\":1";
        if (inRepo(c->getLocation())) o << ",\"repo\":1";
        o << ",\"ret\":"; jstr(o, ty(c->getReturnType()));
        if (auto *fpt = c->getType()->getAs<FunctionProtoType>()) {
            auto est = fpt->getExceptionSpecType();
            if (est == EST_BasicNoexcept || est == EST_NoexceptTrue || est == EST_NoThrow) o << ",\"nothrow\":1";
        }
        o << ",\"pt\":[";
        for (unsigned i = 0; i < c->getNumParams(); ++i) { if (i) o << ","; jstr(o, ty(c->getParamDecl(i)->getType())); }
        o << "]";
        if (auto *ta = c->getTemplateSpecializationArgs()) {
            std::string t; llvm::raw_string_ostream to(t);
            for (unsigned i = 0; i < ta->size(); ++i) { if (i) to << ","; ta->get(i).print(pp, to, true); }
            o << ",\"ta\":"; jstr(o, to.str());
        }
        o << "}\n";
        out << o.str();
        return id;
    }
    std::string clsName(const CXXRecordDecl *r) {
        if (r->isLambda()) return "(lambda)";
        return ty(ctx.getRecordType(r));
    }

    int localId(const VarDecl *v) {
        v = v->getCanonicalDecl();
        auto it = locals.find(v);
        if (it != locals.end()) return it->second;
        int id = (int)localList.size();
        locals[v] = id; localList.push_back(v);
        return id;
    }

    const Expr *strip(const Expr *e) {
        while (e) {
            if (auto *x = dyn_cast<ParenExpr>(e)) e = x->getSubExpr();
            else if (auto *x = dyn_cast<ImplicitCastExpr>(e)) e = x->getSubExpr();
            else if (auto *x = dyn_cast<ExprWithCleanups>(e)) e = x->getSubExpr();
            else if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) e = x->getSubExpr();
            else if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) e = x->getSubExpr();
            else if (auto *x = dyn_cast<CXXDefaultArgExpr>(e)) e = x->getExpr();
            else if (auto *x = dyn_cast<CXXDefaultInitExpr>(e)) e = x->getExpr();
            else if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = x->getReplacement();
            else if (auto *x = dyn_cast<ConstantExpr>(e)) e = x->getSubExpr();
            else if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e)) e = x->getSubExpr();
            else if (auto *x = dyn_cast<CXXRewrittenBinaryOperator>(e)) e = x->getSemanticForm();
            else if (auto *x = dyn_cast<CXXFunctionalCastExpr>(e)) e = x->getSubExpr();
            else break;
        }
        return e;
    }

    void args(llvm::raw_ostream &o, const CallExpr *c, unsigned from) {
        o << "[";
        for (unsigned i = from; i < c->getNumArgs(); ++i) { if (i > from) o << ","; tree(o, c->getArg(i)); }
        o << "]";
    }

    void tree(llvm::raw_ostream &o, const Expr *e, int depth = 0) {
        e = strip(e);
        if (!e) { o << "null"; return; }
        if (depth > 40) { o << "[\"unk\",\"deep\"]"; return; }
        if (isa<CXXThisExpr>(e)) { o << "[\"this\"]"; return; }
        if (auto *x = dyn_cast<DeclRefExpr>(e)) {
            auto *d = x->getDecl();
            if (auto *ec = dyn_cast<EnumConstantDecl>(d)) {
                noteEnum(cast<EnumDecl>(ec->getDeclContext()));
                o << "[\"e\","; jstr(o, qname(ec)); o << "," << big(ec->getInitVal()) << "]"; return;
            }
            if (auto *v = dyn_cast<VarDecl>(d)) {
                if (v->isLocalVarDeclOrParm() && !v->isStaticLocal()) {
                    if (auto *p = dyn_cast<ParmVarDecl>(v); p && p->getDeclContext() == curFn) {
                        o << "[\"p\"," << p->getFunctionScopeIndex() << ","; jstr(o, v->getName()); o << "]";
                    } else if (v->getDeclContext() != curFn && curFn && !sameFn(v->getDeclContext())) {
                        // captured from the enclosing function
                        o << "[\"cap\","; jstr(o, v->getName()); o << ",";
                        if (auto *p2 = dyn_cast<ParmVarDecl>(v)) o << "\"p" << p2->getFunctionScopeIndex() << "\"";
                        else { o << "\"L" << line(v->getLocation()) << "\""; }
                        o << "]";
                    } else {
                        o << "[\"l\"," << localId(v) << ","; jstr(o, v->getName()); o << "]";
                    }
                    return;
                }
                o << "[\"g\","; jstr(o, qname(v)); 
                if (v->isStaticLocal()) o << ",1";
                o << "]"; return;
            }
            if (auto *f = dyn_cast<FunctionDecl>(d)) { o << "[\"f\"," << fsym(f) << "]"; return; }
            if (auto *b = dyn_cast<BindingDecl>(d)) {
                o << "[\"bind\","; jstr(o, b->getName());
                int idx = -1, n = 0;
                if (auto *dd = dyn_cast_or_null<VarDecl>(b->getDecomposedDecl())) {
                    for (auto *bb : cast<DecompositionDecl>(dd)->bindings()) { if (bb == b) idx = n; ++n; }
                    o << "," << idx << ",";
                    if (!sameFn(dd->getDeclContext())) o << "null"; else o << localId(dd);
                    // the component it names, so that `auto [a, b] = x` and `x.first` are the same term
                    const Expr *be = b->getBinding();
                    be = be ? be->IgnoreParenImpCasts() : nullptr;
                    if (auto *me = dyn_cast_or_null<MemberExpr>(be)) {
                        if (auto *fd = dyn_cast<FieldDecl>(me->getMemberDecl())) { o << ","; jstr(o, qname(fd)); }
                    } else if (b->getHoldingVar()) {
                        auto *rd = dd->getType().getNonReferenceType()->getAsCXXRecordDecl();
                        if (rd && rd->getName() == "pair" && rd->isInStdNamespace() && idx >= 0 && idx < 2) { o << ","; jstr(o, idx ? "std::pair::second" : "std::pair::first"); }
                    }
                } else o << ",-1,null";
                o << "]"; return;
            }
            o << "[\"unk\","; jstr(o, d->getNameAsString()); o << "]"; return;
        }
        if (auto *x = dyn_cast<MemberExpr>(e)) {
            if (auto *fd = dyn_cast<FieldDecl>(x->getMemberDecl())) {
                o << "[\"m\","; tree(o, x->getBase(), depth + 1); o << ","; jstr(o, qname(fd)); o << "]"; return;
            }
            if (auto *vd = dyn_cast<VarDecl>(x->getMemberDecl())) { o << "[\"g\","; jstr(o, qname(vd)); o << "]"; return; }
            if (auto *md = dyn_cast<CXXMethodDecl>(x->getMemberDecl())) {
                o << "[\"bm\"," << fsym(md) << ","; tree(o, x->getBase(), depth + 1); o << "]"; return;
            }
            if (auto *ec = dyn_cast<EnumConstantDecl>(x->getMemberDecl())) {
                o << "[\"e\","; jstr(o, qname(ec)); o << "," << big(ec->getInitVal()) << "]"; return;
            }
        }
        if (auto *x = dyn_cast<CXXMemberCallExpr>(e)) {
            auto *md = x->getMethodDecl();
            if (md) {
                auto *me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens());
                bool nonvirt = me && me->hasQualifier();
                o << "[\"c\"," << fsym(md) << ","; tree(o, x->getImplicitObjectArgument(), depth + 1); o << ",";
                argsD(o, x, 0, depth); if (nonvirt) o << ",1"; o << "]";
                return;
            }
            // pointer-to-member call
            o << "[\"ci\","; tree(o, x->getCallee(), depth + 1); o << ","; argsD(o, x, 0, depth); o << "]"; return;
        }
        if (auto *x = dyn_cast<CXXOperatorCallExpr>(e)) {
            auto *fd = x->getDirectCallee();
            if (fd) {
                if (isa<CXXMethodDecl>(fd) && !cast<CXXMethodDecl>(fd)->isStatic()) {
                    o << "[\"c\"," << fsym(fd) << ","; tree(o, x->getArg(0), depth + 1); o << ","; argsD(o, x, 1, depth); o << "]";
                } else { o << "[\"c\"," << fsym(fd) << ",null,"; argsD(o, x, 0, depth); o << "]"; }
                return;
            }
        }
        if (auto *x = dyn_cast<CallExpr>(e)) {
            if (auto *fd = x->getDirectCallee()) {
                o << "[\"c\"," << fsym(fd) << ",null,"; argsD(o, x, 0, depth); o << "]"; return;
            }
            o << "[\"ci\","; tree(o, x->getCallee(), depth + 1); o << ","; argsD(o, x, 0, depth); o << "]"; return;
        }
        if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
            auto *cd = x->getConstructor();
            // collapse copies / moves of trivially wrapped values
            o << "[\"n\"," << fsym(cd) << ","; jstr(o, ty(x->getType())); o << ",[";
            for (unsigned i = 0; i < x->getNumArgs(); ++i) { if (i) o << ","; tree(o, x->getArg(i), depth + 1); }
            o << "]]"; return;
        }
        if (auto *x = dyn_cast<BinaryOperator>(e)) {
            o << "[\"b\","; jstr(o, x->getOpcodeStr()); o << ","; tree(o, x->getLHS(), depth + 1); o << ","; tree(o, x->getRHS(), depth + 1); o << "]"; return;
        }
        if (auto *x = dyn_cast<UnaryOperator>(e)) {
            if (x->getOpcode() == UO_Extension) { tree(o, x->getSubExpr(), depth + 1); return; }
            std::string op = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
            if (x->isPostfix()) op = "p" + op;
            o << "[\"u\","; jstr(o, op); o << ","; tree(o, x->getSubExpr(), depth + 1); o << "]"; return;
        }
        if (auto *x = dyn_cast<ConditionalOperator>(e)) {
            o << "[\"?\","; tree(o, x->getCond(), depth + 1); o << ","; tree(o, x->getTrueExpr(), depth + 1); o << ","; tree(o, x->getFalseExpr(), depth + 1); o << "]"; return;
        }
        if (auto *x = dyn_cast<IntegerLiteral>(e)) { 
            llvm::SmallString<32> b; x->getValue().toString(b, 10, x->getType()->isSignedIntegerType());
            o << "[\"i\"," << b << "]"; return; }
        if (auto *x = dyn_cast<CharacterLiteral>(e)) { o << "[\"i\"," << x->getValue() << "]"; return; }
        if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e)) { o << "[\"i\"," << (x->getValue() ? "true" : "false") << "]"; return; }
        if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { o << "[\"i\",null]"; return; }
        if (auto *x = dyn_cast<clang::StringLiteral>(e)) { o << "[\"s\","; jstr(o, x->getCharByteWidth() == 1 ? x->getString() : llvm::StringRef("wide")); o << "]"; return; }
        if (auto *x = dyn_cast<FloatingLiteral>(e)) { o << "[\"i\"," << "\"float\"" << "]"; return; }
        if (auto *x = dyn_cast<LambdaExpr>(e)) {
            auto *co = x->getCallOperator();
            o << "[\"lam\"," << fsym(co) << ",[";
            bool first = true;
            auto initIt = x->capture_init_begin();
            for (auto &cap : x->captures()) {
                if (!first) o << ","; first = false;
                if (cap.capturesVariable()) {
                    auto *vd = cap.getCapturedVar();
                    o << "["; jstr(o, vd->getNameAsString()); o << "," << (cap.getCaptureKind() == LCK_ByRef ? 1 : 0) << ",";
                    tree(o, *initIt, depth + 1); o << "]";
                } else { o << "[\"this\",1,[\"this\"]]"; }
                ++initIt;
            }
            o << "]]"; return;
        }
        if (auto *x = dyn_cast<CXXNewExpr>(e)) {
            o << "[\"new\","; jstr(o, ty(x->getAllocatedType())); o << ","; 
            if (x->getInitializer()) tree(o, x->getInitializer(), depth + 1); else o << "null";
            o << ",[";
            for (unsigned i = 0; i < x->getNumPlacementArgs(); ++i) { if (i) o << ","; tree(o, x->getPlacementArg(i), depth + 1); }
            o << "]]"; return;
        }
        if (auto *x = dyn_cast<CXXDeleteExpr>(e)) { o << "[\"del\","; tree(o, x->getArgument(), depth + 1); o << "]"; return; }
        if (auto *x = dyn_cast<CXXThrowExpr>(e)) { o << "[\"throw\","; tree(o, x->getSubExpr(), depth + 1); o << "]"; return; }
        if (auto *x = dyn_cast<ExplicitCastExpr>(e)) {
            o << "[\"x\","; jstr(o, ty(x->getType())); o << ","; tree(o, x->getSubExpr(), depth + 1); o << "]"; return;
        }
        if (auto *x = dyn_cast<ArraySubscriptExpr>(e)) { o << "[\"sub\","; tree(o, x->getBase(), depth + 1); o << ","; tree(o, x->getIdx(), depth + 1); o << "]"; return; }
        if (auto *x = dyn_cast<InitListExpr>(e)) {
            o << "[\"init\",[";
            for (unsigned i = 0; i < x->getNumInits(); ++i) { if (i) o << ","; tree(o, x->getInit(i), depth + 1); }
            o << "],"; jstr(o, ty(x->getType()));
            if (auto *rt = x->getType()->getAs<RecordType>()) {
                o << ",[";
                bool first = true;
                for (auto *f : rt->getDecl()->fields()) { if (!first) o << ","; first = false; jstr(o, f->getName()); }
                o << "]";
            }
            o << "]"; return;
        }
        if (auto *x = dyn_cast<DesignatedInitExpr>(e)) { tree(o, x->getInit(), depth + 1); return; }
        if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
            Expr::EvalResult r;
            if (x->EvaluateAsInt(r, ctx)) { o << "[\"i\"," << big(r.Val.getInt()) << "]"; return; }
        }
        if (isa<CXXScalarValueInitExpr>(e) || isa<ImplicitValueInitExpr>(e)) { o << "[\"i\",0]"; return; }
        if (auto *x = dyn_cast<OpaqueValueExpr>(e)) { tree(o, x->getSourceExpr(), depth + 1); return; }
        if (auto *x = dyn_cast<StmtExpr>(e)) { o << "[\"unk\",\"StmtExpr\"]"; return; }
        if (auto *x = dyn_cast<TypeTraitExpr>(e)) { o << "[\"i\"," << (x->getValue() ? "true" : "false") << "]"; return; }
        o << "[\"unk\","; jstr(o, e->getStmtClassName()); o << "]";
    }
    void argsD(llvm::raw_ostream &o, const CallExpr *c, unsigned from, int depth) {
        o << "[";
        for (unsigned i = from; i < c->getNumArgs(); ++i) { if (i > from) o << ","; tree(o, c->getArg(i), depth + 1); }
        o << "]";
    }
    bool sameFn(const DeclContext *dc) {
        return curFn && Decl::castFromDeclContext(dc) && dc == (const DeclContext*)curFn;
    }

    void noteEnum(const EnumDecl *e) {
        e = e->getCanonicalDecl();
        if (!e->getDefinition()) return;
        e = e->getDefinition();
        if (enumDone[e]) return;
        enumDone[e] = true;
        if (!inRepo(e->getLocation())) return;
        std::string s; llvm::raw_string_ostream o(s);
        o << "{\"k\":\"enum\",\"q\":"; jstr(o, qname(e)); o << ",\"file\":"; jstr(o, fileOf(e->getLocation()));
        o << ",\"line\":" << line(e->getLocation()) << ",\"c\":[";
        bool first = true;
        for (auto *c : e->enumerators()) { if (!first) o << ","; first = false; o << "["; jstr(o, c->getName()); o << "," << big(c->getInitVal()) << "]"; }
        o << "]}\n"; out << o.str();
    }

    void record(const CXXRecordDecl *r) {
        if (!r->isThisDeclarationADefinition() || r->isDependentContext() || r->isLambda()) return;
        if (!inRepo(r->getLocation())) return;
        if (recDone[r]) return;
        recDone[r] = true;
        std::string s; llvm::raw_string_ostream o(s);
        o << "{\"k\":\"rec\",\"t\":"; jstr(o, clsName(r)); o << ",\"q\":"; jstr(o, qname(r));
        o << ",\"file\":"; jstr(o, fileOf(r->getLocation())); o << ",\"line\":" << line(r->getLocation());
        o << ",\"bases\":[";
        bool first = true;
        for (auto &b : r->bases()) { if (!first) o << ","; first = false; jstr(o, ty(b.getType())); }
        o << "],\"fields\":[";
        first = true;
        const ASTRecordLayout *lay = nullptr;
        if (!r->isInvalidDecl() && r->isCompleteDefinition()) lay = &ctx.getASTRecordLayout(r);
        for (auto *f : r->fields()) {
            if (!first) o << ","; first = false;
            o << "["; jstr(o, f->getName()); o << ","; jstr(o, ty(f->getType())); o << "," << (lay ? (long long)lay->getFieldOffset(f->getFieldIndex()) : -1) ;
            o << "," << (f->hasInClassInitializer() ? 1 : 0) << "," << line(f->getLocation()) << "]";
        }
        o << "]";
        if (lay) o << ",\"size\":" << lay->getSize().getQuantity() << ",\"align\":" << lay->getAlignment().getQuantity();
        if (r->hasAttr<PackedAttr>() || r->hasAttr<MaxFieldAlignmentAttr>()) o << ",\"packed\":1";
        if (r->isPolymorphic()) o << ",\"poly\":1";
        if (r->isStandardLayout()) o << ",\"stdlayout\":1";
        if (r->isTriviallyCopyable()) o << ",\"triv\":1";
        o << ",\"methods\":[";
        first = true;
        for (auto *m : r->methods()) {
            if (m->isImplicit()) continue;
            if (!first) o << ","; first = false;
            o << "[" << fsym(m) << "," << (m->isVirtual() ? 1 : 0) << "," << (int)m->getAccess() << "," << (m->isDeleted() ? 1 : 0) << ",[";
            bool f2 = true;
            for (auto *ov : m->overridden_methods()) { if (!f2) o << ","; f2 = false; o << fsym(ov); }
            o << "]]";
        }
        o << "]}\n"; out << o.str();
    }

    void globalVar(const VarDecl *v) {
        if (v->isLocalVarDeclOrParm() && !v->isStaticLocal()) return;
        if (v->getType()->isDependentType() || v->getDeclContext()->isDependentContext()) return;
        if (!inRepo(v->getLocation())) return;
        const VarDecl *def = nullptr;
        auto *init = v->getAnyInitializer(def);
        if (!init || def != v) { if (!(v->isThisDeclarationADefinition() == VarDecl::Definition)) return; }
        if (init && init->isValueDependent()) return;
        curFn = nullptr; locals.clear(); localList.clear();
        std::string s; llvm::raw_string_ostream o(s);
        o << "{\"k\":\"gvar\",\"q\":"; jstr(o, qname(v)); o << ",\"t\":"; jstr(o, ty(v->getType()));
        o << ",\"file\":"; jstr(o, fileOf(v->getLocation())); o << ",\"line\":" << line(v->getLocation());
        if (v->getTSCSpec() != TSCS_unspecified) o << ",\"tls\":1";
        o << ",\"init\":"; if (init) tree(o, init); else o << "null";
        Expr::EvalResult er;
        if (init && !init->isInstantiationDependent() && v->getType()->isIntegralOrEnumerationType() && init->EvaluateAsInt(er, ctx))
            o << ",\"val\":" << big(er.Val.getInt());
        o << "}\n"; out << o.str();
    }

    bool isAssign(const Stmt *s) {
        if (auto *b = dyn_cast<BinaryOperator>(s)) return b->isAssignmentOp();
        if (auto *u = dyn_cast<UnaryOperator>(s)) return u->isIncrementDecrementOp();
        return false;
    }

    std::map<const VarDecl*, std::vector<int>> tryOf;
    void scanTry(const Stmt *st, std::vector<int> &stack) {
        if (!st || isa<LambdaExpr>(st)) return;
        if (auto *ds = dyn_cast<DeclStmt>(st)) {
            for (auto *d : ds->decls()) if (auto *v = dyn_cast<VarDecl>(d)) if (!stack.empty()) tryOf[v->getCanonicalDecl()] = stack;
        }
        if (auto *t = dyn_cast<CXXTryStmt>(st)) {
            stack.push_back(line(t->getBeginLoc()));
            scanTry(t->getTryBlock(), stack);
            stack.pop_back();
            for (unsigned i = 0; i < t->getNumHandlers(); ++i) scanTry(t->getHandler(i)->getHandlerBlock(), stack);
            return;
        }
        for (auto *c : st->children()) scanTry(c, stack);
    }

    void func(const FunctionDecl *f) {
        if (!f->isThisDeclarationADefinition() || !f->hasBody() || f->isDependentContext()) return;
        if (f->isDefaulted() && !f->isUserProvided()) return;
        if (!inRepo(f->getLocation())) return;
        if (!fnDone.insert(f->getCanonicalDecl()).second) return;
        if (f->isTemplated() && f->getTemplatedKind() == FunctionDecl::TK_FunctionTemplate) return;
        const Stmt *body = f->getBody();
        if (!body) return;
        curFn = f; locals.clear(); localList.clear();
        tryOf.clear();
        { std::vector<int> st; scanTry(body, st); }
        CFG::BuildOptions bo;
        bo.AddEHEdges = true; bo.AddInitializers = true; bo.AddImplicitDtors = true; bo.AddTemporaryDtors = false;
        bo.AddCXXNewAllocator = false; bo.AddLifetime = false; bo.AddScopes = false; bo.PruneTriviallyFalseEdges = false;
        bo.setAllAlwaysAdd();
        auto cfg = CFG::buildCFG(f, const_cast<Stmt*>(body), &ctx, bo);
        std::string s; llvm::raw_string_ostream o(s);
        int fs = fsym(f);
        o << "{\"k\":\"fn\",\"i\":" << fs << ",\"file\":"; jstr(o, fileOf(f->getLocation()));
        o << ",\"line\":" << line(f->getLocation()) << ",\"end\":" << line(body->getEndLoc());
        o << ",\"params\":[";
        for (unsigned i = 0; i < f->getNumParams(); ++i) { if (i) o << ","; jstr(o, f->getParamDecl(i)->getName()); }
        o << "]";
        if (auto *pat = f->getTemplateInstantiationPattern()) { o << ",\"inst\":1"; (void)pat; }
        if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
            if (m->getParent()->isLambda()) {
                const DeclContext *dc = m->getParent()->getDeclContext();
                while (dc && !isa<FunctionDecl>(dc)) dc = dc->getParent();
                if (dc) o << ",\"parent\":" << fsym(cast<FunctionDecl>(dc));
            }
        }
        if (!cfg) { o << ",\"nocfg\":1}\n"; out << o.str(); return; }
        o << ",\"entry\":" << cfg->getEntry().getBlockID() << ",\"exit\":" << cfg->getExit().getBlockID() << ",\"blocks\":[";
        bool firstB = true;
        std::string lam;
        for (auto it = cfg->rbegin(); it != cfg->rend(); ++it) {
            const CFGBlock *b = *it;
            if (!firstB) o << ","; firstB = false;
            o << "{\"b\":" << b->getBlockID();
            if (auto *lab = b->getLabel()) {
                if (auto *cs = dyn_cast<CaseStmt>(lab)) {
                    o << ",\"case\":["; 
                    tree(o, cs->getLHS());
                    if (cs->getRHS()) { o << ","; tree(o, cs->getRHS()); }
                    Expr::EvalResult r;
                    if (!cs->getLHS()->isValueDependent() && cs->getLHS()->EvaluateAsInt(r, ctx)) o << ",[\"val\"," << big(r.Val.getInt()) << "]";
                    o << "]";
                } else if (isa<DefaultStmt>(lab)) o << ",\"default\":1";
                else if (auto *cst = dyn_cast<CXXCatchStmt>(lab)) {
                    o << ",\"catch\":"; 
                    if (cst->getExceptionDecl()) jstr(o, ty(cst->getCaughtType())); else jstr(o, "...");
                    o << ",\"cl\":" << line(cst->getBeginLoc());
                }
            }
            o << ",\"ev\":[";
            bool firstE = true;
            auto sep = [&]() { if (!firstE) o << ","; firstE = false; };
            bool lastMayThrow = false;
            for (auto &el : *b) {
                if (auto cs = el.getAs<CFGStmt>()) {
                    const Stmt *st = cs->getStmt();
                    if (auto *ds = dyn_cast<DeclStmt>(st)) {
                        for (auto *d : ds->decls()) {
                            if (auto *v = dyn_cast<VarDecl>(d)) {
                                if (v->isStaticLocal()) continue;
                                sep();
                                o << "[\"decl\"," << line(st->getBeginLoc()) << "," << localId(v) << ","; jstr(o, ty(v->getType())); o << ",";
                                if (v->getInit()) tree(o, v->getInit()); else o << "null";
                                o << "]";
                            }
                        }
                    } else if (auto *rs = dyn_cast<ReturnStmt>(st)) {
                        sep(); o << "[\"ret\"," << line(st->getBeginLoc()) << ","; if (rs->getRetValue()) tree(o, rs->getRetValue()); else o << "null"; o << "]";
                    } else if (auto *bo2 = dyn_cast<BinaryOperator>(st); bo2 && bo2->isAssignmentOp()) {
                        sep(); o << "[\"asg\"," << line(st->getBeginLoc()) << ","; tree(o, bo2->getLHS()); o << ","; jstr(o, bo2->getOpcodeStr()); o << ","; tree(o, bo2->getRHS()); o << "]";
                    } else if (auto *uo = dyn_cast<UnaryOperator>(st); uo && uo->isIncrementDecrementOp()) {
                        sep(); o << "[\"asg\"," << line(st->getBeginLoc()) << ","; tree(o, uo->getSubExpr()); o << ",\"" << (uo->isIncrementOp() ? "++" : "--") << "\",[\"i\",1]]";
                    } else if (isa<CallExpr>(st)) {
                        sep(); o << "[\"call\"," << line(st->getBeginLoc()) << ","; tree(o, cast<Expr>(st)); o << "]";
                    } else if (isa<CXXConstructExpr>(st)) {
                        auto *ce = cast<CXXConstructExpr>(st);
                        bool tm = isa<CXXTemporaryObjectExpr>(st);
                        sep(); o << "[\"call\"," << line(st->getBeginLoc()) << ","; tree(o, ce); o << (tm ? ",1]" : "]");
                    } else if (isa<CXXNewExpr>(st) || isa<CXXDeleteExpr>(st)) {
                        sep(); o << "[\"mem\"," << line(st->getBeginLoc()) << ","; tree(o, cast<Expr>(st)); o << "]";
                    } else if (auto *th = dyn_cast<CXXThrowExpr>(st)) {
                        sep(); o << "[\"throw\"," << line(st->getBeginLoc()) << ","; if (th->getSubExpr()) tree(o, th->getSubExpr()); else o << "null"; o << "]";
                    } else if (auto *me = dyn_cast<MemberExpr>(st)) {
                        if (isa<FieldDecl>(me->getMemberDecl())) {
                            sep(); o << "[\"rd\"," << line(st->getBeginLoc()) << ","; tree(o, me); o << "]";
                        }
                    } else if (auto *dr = dyn_cast<DeclRefExpr>(st)) {
                        if (auto *v = dyn_cast<VarDecl>(dr->getDecl()); v && (!v->isLocalVarDeclOrParm() || v->isStaticLocal()) && inRepo(v->getLocation())) {
                            sep(); o << "[\"rdg\"," << line(st->getBeginLoc()) << ","; tree(o, dr); o << "]";
                        }
                    }
                } else if (auto ci = el.getAs<CFGInitializer>()) {
                    auto *in = ci->getInitializer();
                    sep(); o << "[\"init\"," << line(in->getSourceLocation().isValid() ? in->getSourceLocation() : f->getLocation()) << ",";
                    if (in->isAnyMemberInitializer()) jstr(o, qname(in->getAnyMember())); else o << "null";
                    o << ","; tree(o, in->getInit()); o << "]";
                } else if (auto ad = el.getAs<CFGAutomaticObjDtor>()) {
                    auto *v = ad->getVarDecl();
                    sep(); o << "[\"dtor\"," << line(ad->getTriggerStmt() ? ad->getTriggerStmt()->getEndLoc() : SourceLocation()) << "," ;
                    if (auto *pv = dyn_cast<ParmVarDecl>(v)) o << "-" << (pv->getFunctionScopeIndex() + 1); else o << localId(v);
                    o << ","; jstr(o, ty(v->getType()));
                    o << ",";
                    auto *rd = v->getType()->getBaseElementTypeUnsafe()->getAsCXXRecordDecl();
                    if (rd && rd->hasDefinition() && rd->getDestructor()) o << fsym(rd->getDestructor()); else o << "null";
                    o << "]";
                }
            }
            o << "]";
            const Stmt *t = b->getTerminatorStmt();
            if (t) {
                o << ",\"t\":"; jstr(o, t->getStmtClassName());
                if (auto *bo3 = dyn_cast<BinaryOperator>(t)) { o << ",\"top\":"; jstr(o, bo3->getOpcodeStr()); }
                o << ",\"tl\":" << line(t->getBeginLoc());
                const Expr *c = b->getLastCondition();
                if (!c) c = dyn_cast_or_null<Expr>(b->getTerminatorCondition());
                if (auto *sw = dyn_cast<SwitchStmt>(t)) c = sw->getCond();
                if (auto *fr = dyn_cast<CXXForRangeStmt>(t)) c = fr->getCond();
                if (c && !isa<CXXTryStmt>(t)) { o << ",\"cond\":"; tree(o, c); }
            }
            o << ",\"s\":[";
            bool fs2 = true;
            for (auto si = b->succ_begin(); si != b->succ_end(); ++si) {
                if (!fs2) o << ","; fs2 = false;
                const CFGBlock *sb = si->getReachableBlock();
                bool unr = false;
                if (!sb) { sb = si->getPossiblyUnreachableBlock(); unr = true; }
                if (!sb) o << "null"; else if (unr) o << "[" << sb->getBlockID() << "]"; else o << sb->getBlockID();
            }
            o << "]";
            if (b->hasNoReturnElement()) o << ",\"nr\":1";
            o << "}";
        }
        o << "],\"locals\":[";
        for (size_t i = 0; i < localList.size(); ++i) {
            if (i) o << ",";
            auto *v = localList[i];
            o << "["; jstr(o, v->getName()); o << ","; jstr(o, ty(v->getType())); o << "," << line(v->getLocation()) << ",[";
            bool ft = true;
            for (int t : tryOf[v]) { if (!ft) o << ","; ft = false; o << t; }
            o << "]]";
        }
        o << "]}\n";
        out << o.str();
    }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
    Dumper &d;
    explicit Visitor(Dumper &x) : d(x) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    std::vector<const FunctionDecl*> fns;
    bool TraverseDecl(Decl *D) {
        if (D && !isa<TranslationUnitDecl>(D) && D->getLocation().isValid() && !isa<NamespaceDecl>(D) && !isa<LinkageSpecDecl>(D)) {
            if (!d.inRepo(D->getLocation())) return true;
        }
        return RecursiveASTVisitor<Visitor>::TraverseDecl(D);
    }
    bool VisitFunctionDecl(FunctionDecl *f) { fns.push_back(f); return true; }
    bool VisitLambdaExpr(LambdaExpr *l) {
        auto *co = l->getCallOperator();
        if (co) {
            if (auto *ft = co->getDescribedFunctionTemplate()) {
                for (auto *sp : ft->specializations()) fns.push_back(sp);
            } else fns.push_back(co);
        }
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *r) { d.record(r); return true; }
    bool VisitEnumDecl(EnumDecl *e) { d.noteEnum(e); return true; }
    bool VisitVarDecl(VarDecl *v) { d.globalVar(v); return true; }
};

class Consumer : public ASTConsumer {
public:
    CompilerInstance &ci;
    explicit Consumer(CompilerInstance &c) : ci(c) {}
    void HandleTranslationUnit(ASTContext &ctx) override {
        std::error_code ec;
        llvm::raw_fd_ostream out(g_out, ec);
        if (ec) { llvm::errs() << "cannot write " << g_out << "\n"; return; }
        Dumper d(ctx, out);
        Visitor v(d);
        v.TraverseDecl(ctx.getTranslationUnitDecl());
        for (auto *f : v.fns) d.func(f);
        // dependency list
        auto &sm = ctx.getSourceManager();
        std::set<std::string> files;
        for (auto it = sm.fileinfo_begin(); it != sm.fileinfo_end(); ++it) {
            llvm::SmallString<256> p(it->first.getName());
            llvm::sys::fs::make_absolute(p); llvm::sys::path::remove_dots(p, true);
            files.insert(std::string(p.str()));
        }
        out << "{\"k\":\"deps\",\"files\":[";
        bool first = true;
        for (auto &f : files) { if (f.compare(0, g_root.size(), g_root) != 0) continue; if (!first) out << ","; first = false; jstr(out, f); }
        out << "],\"errors\":" << ci.getDiagnostics().getClient()->getNumErrors() << "}\n";
    }
};
// Several repository headers carry no include guard (each is included once per real unit). Units are analysed in
// groups, so every repository header is entered once per group.
class OncePP : public PPCallbacks {
public:
    CompilerInstance &ci;
    explicit OncePP(CompilerInstance &c) : ci(c) {}
    void FileChanged(SourceLocation loc, FileChangeReason reason, SrcMgr::CharacteristicKind, FileID) override {
        if (reason != EnterFile) return;
        auto &sm = ci.getSourceManager();
        auto fe = sm.getFileEntryRefForID(sm.getFileID(sm.getExpansionLoc(loc)));
        if (!fe) return;
        StringRef n = fe->getName();
        if (n.find("dbzero") == StringRef::npos || !n.ends_with(".hpp")) return;
        if (n.contains("/intrusive/detail/config_") || n.contains("no_exceptions_support")) return;
        ci.getPreprocessor().getHeaderSearchInfo().MarkFileIncludeOnce(*fe);
    }
};
class Action : public ASTFrontendAction {
public:
    bool BeginSourceFileAction(CompilerInstance &ci) override {
        ci.getPreprocessor().addPPCallbacks(std::make_unique<OncePP>(ci));
        return true;
    }
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &ci, StringRef) override { return std::make_unique<Consumer>(ci); }
};

int main(int argc, const char **argv) {
    // usage: extract ROOT OUT FILE -- flags
    if (argc < 5) { llvm::errs() << "usage: extract ROOT OUT FILE -- flags\n"; return 2; }
    g_root = argv[1]; if (g_root.back() != '/') g_root += '/';
    g_out = argv[2];
    std::string file = argv[3];
    std::vector<std::string> flags;
    for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, {file});
    int rc = tool.run(tooling::newFrontendActionFactory<Action>().get());
    return rc ? 3 : 0;
}
