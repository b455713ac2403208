// Exports the resolved program (instantiated templates, resolved callees, types)
// of the analysed translation unit as JSON, for the static analyses in /verif/py.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/Expr.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/ExprOpenMP.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/AST/StmtOpenMP.h>
#include <clang/AST/StmtVisitor.h>
#include <clang/Basic/Version.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendActions.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/CommandLine.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <deque>
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;
using json::Array;
using json::Object;
using json::Value;

static std::vector<std::string> gRoots;
static std::string gOut;

namespace {

class Exporter {
 public:
    ASTContext& ctx;
    SourceManager& sm;
    PrintingPolicy pp;
    std::map<const FunctionDecl*, int> fnIds;
    std::vector<Object> fns;
    std::deque<const FunctionDecl*> bodyQueue;
    std::set<const FunctionDecl*> queued;
    std::map<const ValueDecl*, int> declIds;
    std::map<const void*, int> typeIds;
    std::vector<Object> types;
    std::map<const CXXRecordDecl*, int> recIds;
    std::vector<Object> recs;
    std::vector<std::string> files;
    std::map<std::string, int> fileIds;
    std::map<const VarDecl*, int> globIds;
    std::vector<Object> globs;

    explicit Exporter(ASTContext& c) : ctx(c), sm(c.getSourceManager()), pp(c.getLangOpts()) {
        pp.SuppressTagKeyword = true;
        pp.FullyQualifiedName = true;
        pp.Bool = true;
    }

    // ---------------------------------------------------------------- places
    int fileId(const std::string& f) {
        auto it = fileIds.find(f);
        if (it != fileIds.end()) return it->second;
        int id = files.size();
        files.push_back(f);
        fileIds[f] = id;
        return id;
    }
    Value loc(SourceLocation l) {
        l = sm.getExpansionLoc(l);
        PresumedLoc p = sm.getPresumedLoc(l);
        if (p.isInvalid()) return nullptr;
        return (int64_t)fileId(p.getFilename()) * 1000000 + p.getLine();
    }
    bool inRoots(SourceLocation l) {
        l = sm.getExpansionLoc(l);
        PresumedLoc p = sm.getPresumedLoc(l);
        if (p.isInvalid()) return false;
        std::string f = p.getFilename();
        for (auto& r : gRoots) if (f.compare(0, r.size(), r) == 0) return true;
        return false;
    }
    int declId(const ValueDecl* d) {
        d = cast<ValueDecl>(d->getCanonicalDecl());
        auto it = declIds.find(d);
        if (it != declIds.end()) return it->second;
        int id = declIds.size();
        declIds[d] = id;
        return id;
    }

    // ----------------------------------------------------------------- types
    std::string recName(const CXXRecordDecl* r) {
        std::string s;
        llvm::raw_string_ostream os(s);
        r->getNameForDiagnostic(os, pp, true);
        return os.str();
    }
    int typeId(QualType q) {
        if (q.isNull()) return -1;
        q = q.getCanonicalType();
        auto key = q.getAsOpaquePtr();
        auto it = typeIds.find(key);
        if (it != typeIds.end()) return it->second;
        int id = types.size();
        typeIds[key] = id;
        types.push_back(Object{});
        Object o;
        if (q.isConstQualified()) o["const"] = true;
        if (q.isVolatileQualified()) o["volatile"] = true;
        QualType u = q.getUnqualifiedType();
        if (auto* r = u->getAs<ReferenceType>()) {
            o["k"] = u->isRValueReferenceType() ? "rref" : "ref";
            o["to"] = typeId(r->getPointeeType());
        } else if (auto* p = u->getAs<PointerType>()) {
            o["k"] = "ptr";
            o["to"] = typeId(p->getPointeeType());
        } else if (auto* rt = u->getAs<RecordType>()) {
            o["k"] = "rec";
            if (auto* cr = dyn_cast<CXXRecordDecl>(rt->getDecl())) {
                o["rec"] = recId(cr);
            }
        } else if (auto* a = ctx.getAsArrayType(u)) {
            o["k"] = "arr";
            o["to"] = typeId(a->getElementType());
            if (auto* ca = dyn_cast<ConstantArrayType>(a)) o["n"] = (int64_t)ca->getSize().getZExtValue();
        } else if (u->isBooleanType()) { o["k"] = "bool";
        } else if (u->isRealFloatingType()) { o["k"] = "flt"; o["bits"] = (int64_t)ctx.getTypeSize(u);
        } else if (u->isEnumeralType()) { o["k"] = "enum";
        } else if (u->isIntegerType()) {
            o["k"] = "int";
            o["sgn"] = u->isSignedIntegerType();
            o["bits"] = (int64_t)ctx.getTypeSize(u);
        } else if (u->isVoidType()) { o["k"] = "void";
        } else if (u->isFunctionType()) { o["k"] = "fn";
        } else if (u->isMemberPointerType()) { o["k"] = "memptr";
        } else if (u->isNullPtrType()) { o["k"] = "ptr";
        } else { o["k"] = "other"; }
        o["s"] = q.getAsString(pp);
        types[id] = std::move(o);
        return id;
    }

    int recId(const CXXRecordDecl* r) {
        r = r->getCanonicalDecl();
        auto it = recIds.find(r);
        if (it != recIds.end()) return it->second;
        int id = recs.size();
        recIds[r] = id;
        recs.push_back(Object{});
        Object o;
        o["name"] = recName(r);
        o["qual"] = r->getQualifiedNameAsString();
        const CXXRecordDecl* d = r->getDefinition();
        if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(d ? d : r)) {
            o["targs"] = targs(sp->getTemplateArgs());
        }
        bool repo = inRoots(r->getLocation());
        o["repo"] = repo;
        o["l"] = loc(r->getLocation());
        if (r->isLambda()) o["lambda"] = true;
        if (d) {
            Array bases;
            for (auto& b : d->bases()) {
                if (auto* br = b.getType()->getAsCXXRecordDecl()) {
                    bases.push_back(recId(br));
                }
            }
            o["bases"] = std::move(bases);
            if (repo) {
                Array fields;
                for (auto* f : d->fields()) {
                    Object fo;
                    fo["n"] = f->getNameAsString();
                    fo["t"] = typeId(f->getType());
                    fo["acc"] = (int)f->getAccess();
                    fo["l"] = loc(f->getLocation());
                    if (f->isMutable()) fo["mutable"] = true;
                    if (f->hasInClassInitializer()) {
                        fo["hasinit"] = true;
                        if (f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer());
                    }
                    fields.push_back(std::move(fo));
                }
                o["fields"] = std::move(fields);
                o["userCopyCtor"] = d->hasUserDeclaredCopyConstructor();
                o["userCopyAssign"] = d->hasUserDeclaredCopyAssignment();
                o["userDtor"] = d->hasUserDeclaredDestructor();
                o["trivCopy"] = d->hasTrivialCopyConstructor();
            }
        }
        recs[id] = std::move(o);
        return id;
    }

    Array targs(const TemplateArgumentList& l) {
        Array a;
        for (auto& t : l.asArray()) targ(a, t);
        return a;
    }
    void targ(Array& a, const TemplateArgument& t) {
        switch (t.getKind()) {
        case TemplateArgument::Integral:
            a.push_back(t.getAsIntegral().getExtValue());
            break;
        case TemplateArgument::Type:
            a.push_back(Object{{"t", typeId(t.getAsType())}});
            break;
        case TemplateArgument::Pack:
            for (auto& p : t.pack_elements()) targ(a, p);
            break;
        case TemplateArgument::Declaration:
            if (auto* f = dyn_cast<FunctionDecl>(t.getAsDecl())) {
                a.push_back(Object{{"fn", fnId(f)}});
            } else {
                a.push_back(t.getAsDecl()->getQualifiedNameAsString());
            }
            break;
        default: {
            std::string s;
            llvm::raw_string_ostream os(s);
            t.print(pp, os, true);
            a.push_back(os.str());
        }
        }
    }

    // ------------------------------------------------------------- functions
    const FunctionDecl* defOf(const FunctionDecl* f) {
        const FunctionDecl* d = nullptr;
        if (f->isDefined(d) && d) return d;
        if (auto* p = f->getTemplateInstantiationPattern()) {
            (void)p;
        }
        return f->getCanonicalDecl();
    }
    int fnId(const FunctionDecl* f0) {
        const FunctionDecl* f = f0->getCanonicalDecl();
        auto it = fnIds.find(f);
        if (it != fnIds.end()) return it->second;
        int id = fns.size();
        fnIds[f] = id;
        fns.push_back(Object{});
        Object o;
        o["q"] = f->getQualifiedNameAsString();
        o["n"] = f->getNameAsString();
        {
            std::string s;
            llvm::raw_string_ostream os(s);
            f->getNameForDiagnostic(os, pp, true);
            o["disp"] = os.str();
        }
        o["ret"] = typeId(f->getReturnType());
        const FunctionDecl* d = nullptr;
        bool hasBody = f->isDefined(d) && d && !d->isDependentContext() && d->getBody();
        if (!d) d = f;
        // Defaulted special members have bodies only when defined implicitly.
        Array ps;
        for (auto* p : d->parameters()) {
            Object po;
            po["d"] = declId(p);
            po["n"] = p->getNameAsString();
            po["t"] = typeId(p->getType());
            if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()
                    && p->getDefaultArg() && inRoots(d->getLocation())) po["def"] = expr(p->getDefaultArg());
            ps.push_back(std::move(po));
        }
        o["params"] = std::move(ps);
        bool repo = inRoots(d->getLocation());
        o["repo"] = repo;
        o["l"] = loc(d->getLocation());
        if (auto* ft = f->getType()->getAs<FunctionProtoType>()) {
            if (ft->isNothrow()) o["noexcept"] = true;
            if (ft->isVariadic()) o["variadic"] = true;
        }
        if (f->isOverloadedOperator()) o["oper"] = getOperatorSpelling(f->getOverloadedOperator());
        if (auto* sp = f->getTemplateSpecializationArgs()) o["targs"] = targs(*sp);
        if (auto* pt = f->getTemplateInstantiationPattern()) o["pattern"] = loc(pt->getLocation());
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            o["rec"] = recId(m->getParent());
            o["method"] = true;
            o["static"] = m->isStatic();
            o["const"] = m->isConst();
            o["virtual"] = m->isVirtual();
            o["acc"] = (int)m->getAccess();
            if (m->getParent()->isLambda()) o["lambda"] = true;
        }
        if (isa<CXXConstructorDecl>(f)) {
            o["ctor"] = true;
            auto* c = cast<CXXConstructorDecl>(f);
            if (c->isCopyConstructor()) o["copyctor"] = true;
            if (c->isMoveConstructor()) o["movector"] = true;
            if (c->isDefaultConstructor()) o["defctor"] = true;
            if (c->isInheritingConstructor()) o["inhctor"] = true;
        }
        if (isa<CXXDestructorDecl>(f)) o["dtor"] = true;
        if (isa<CXXConversionDecl>(f)) o["conv"] = true;
        if (f->isImplicit()) o["implicit"] = true;
        if (f->isDefaulted()) o["defaulted"] = true;
        if (f->isDeleted()) o["deleted"] = true;
        o["hasBody"] = hasBody;
        fns[id] = std::move(o);
        if (hasBody && repo && queued.insert(d).second) bodyQueue.push_back(d);
        return id;
    }
    // Lambdas written in repo code live in repo files, so their call operators are
    // covered by the same rule as every other function.

    void drain() {
        while (!bodyQueue.empty()) {
            const FunctionDecl* d = bodyQueue.front();
            bodyQueue.pop_front();
            int id = fnId(d);
            Object body;
            Array inits;
            if (auto* c = dyn_cast<CXXConstructorDecl>(d)) {
                for (auto* i : c->inits()) {
                    Object io;
                    io["written"] = i->isWritten();
                    io["l"] = loc(i->getSourceLocation());
                    if (i->isAnyMemberInitializer()) {
                        io["f"] = i->getAnyMember()->getNameAsString();
                    } else if (i->isBaseInitializer()) {
                        io["base"] = typeId(QualType(i->getBaseClass(), 0));
                    } else if (i->isDelegatingInitializer()) {
                        io["deleg"] = true;
                    }
                    io["e"] = expr(i->getInit());
                    inits.push_back(std::move(io));
                }
            }
            Value b = stmt(d->getBody());
            Value end = loc(d->getBody()->getEndLoc());
            fns[id]["inits"] = std::move(inits);
            fns[id]["body"] = std::move(b);
            fns[id]["endl"] = std::move(end);
        }
    }

    // -------------------------------------------------------------- variables
    int globId(const VarDecl* v) {
        v = v->getCanonicalDecl();
        auto it = globIds.find(v);
        if (it != globIds.end()) return it->second;
        int id = globs.size();
        globIds[v] = id;
        globs.push_back(Object{});
        Object o;
        o["d"] = declId(v);
        o["q"] = v->getQualifiedNameAsString();
        o["t"] = typeId(v->getType());
        o["l"] = loc(v->getLocation());
        o["repo"] = inRoots(v->getLocation());
        o["const"] = v->getType().isConstQualified() || v->isConstexpr();
        o["tls"] = v->getTLSKind() != VarDecl::TLS_None;
        o["local"] = v->isStaticLocal();
        const VarDecl* def = v->getDefinition();
        if (!def) def = v;
        const Expr* init = def->getAnyInitializer();
        if (init && !init->isValueDependent() && inRoots(v->getLocation())) {
            o["init"] = expr(init);
        }
        globs[id] = std::move(o);
        return id;
    }

    Value varDecl(const VarDecl* v) {
        Object o;
        o["d"] = declId(v);
        o["n"] = v->getNameAsString();
        o["t"] = typeId(v->getType());
        o["l"] = loc(v->getLocation());
        if (v->isStaticLocal()) { o["static"] = true; o["g"] = globId(v); }
        if (v->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
        if (v->isConstexpr()) o["constexpr"] = true;
        if (v->hasInit() && v->getInit()) o["init"] = expr(v->getInit());
        if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
            Array bs;
            for (auto* b : dd->bindings()) {
                Object bo;
                bo["d"] = declId(b);
                bo["n"] = b->getNameAsString();
                bo["t"] = typeId(b->getType());
                if (b->getBinding()) bo["e"] = expr(b->getBinding());
                if (auto* hv = b->getHoldingVar()) bo["hv"] = varDecl(hv);
                bs.push_back(std::move(bo));
            }
            o["bindings"] = std::move(bs);
        }
        return o;
    }

    // ------------------------------------------------------------- statements
    Value stmt(const Stmt* s) {
        if (!s) return nullptr;
        if (auto* e = dyn_cast<Expr>(s)) return expr(e);
        Object o;
        o["l"] = loc(s->getBeginLoc());
        switch (s->getStmtClass()) {
        case Stmt::CompoundStmtClass: {
            o["k"] = "compound";
            Array a;
            for (auto* c : cast<CompoundStmt>(s)->body()) a.push_back(stmt(c));
            o["body"] = std::move(a);
            return o;
        }
        case Stmt::DeclStmtClass: {
            o["k"] = "decl";
            Array a;
            for (auto* d : cast<DeclStmt>(s)->decls()) {
                if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(varDecl(v));
            }
            o["vars"] = std::move(a);
            return o;
        }
        case Stmt::IfStmtClass: {
            auto* i = cast<IfStmt>(s);
            o["k"] = "if";
            if (i->getInit()) o["init"] = stmt(i->getInit());
            if (i->getConditionVariable()) o["var"] = varDecl(i->getConditionVariable());
            if (i->isConstexpr()) {
                bool v;
                if (!i->getCond()->isValueDependent() && i->getCond()->EvaluateAsBooleanCondition(v, ctx)) o["cx"] = v;
            }
            o["c"] = expr(i->getCond());
            o["a"] = stmt(i->getThen());
            if (i->getElse()) o["b"] = stmt(i->getElse());
            return o;
        }
        case Stmt::ForStmtClass: {
            auto* f = cast<ForStmt>(s);
            o["k"] = "for";
            if (f->getInit()) o["init"] = stmt(f->getInit());
            if (f->getConditionVariable()) o["var"] = varDecl(f->getConditionVariable());
            if (f->getCond()) o["c"] = expr(f->getCond());
            if (f->getInc()) o["inc"] = expr(f->getInc());
            o["body"] = stmt(f->getBody());
            return o;
        }
        case Stmt::WhileStmtClass: {
            auto* w = cast<WhileStmt>(s);
            o["k"] = "while";
            if (w->getConditionVariable()) o["var"] = varDecl(w->getConditionVariable());
            o["c"] = expr(w->getCond());
            o["body"] = stmt(w->getBody());
            return o;
        }
        case Stmt::DoStmtClass: {
            auto* w = cast<DoStmt>(s);
            o["k"] = "do";
            o["c"] = expr(w->getCond());
            o["body"] = stmt(w->getBody());
            return o;
        }
        case Stmt::CXXForRangeStmtClass: {
            auto* r = cast<CXXForRangeStmt>(s);
            o["k"] = "rfor";
            if (r->getInit()) o["init"] = stmt(r->getInit());
            o["range"] = expr(r->getRangeInit());
            o["var"] = varDecl(r->getLoopVariable());
            o["body"] = stmt(r->getBody());
            return o;
        }
        case Stmt::ReturnStmtClass: {
            o["k"] = "return";
            if (auto* e = cast<ReturnStmt>(s)->getRetValue()) o["e"] = expr(e);
            return o;
        }
        case Stmt::BreakStmtClass: o["k"] = "break"; return o;
        case Stmt::ContinueStmtClass: o["k"] = "continue"; return o;
        case Stmt::NullStmtClass: o["k"] = "null"; return o;
        case Stmt::GotoStmtClass:
            o["k"] = "goto";
            o["label"] = cast<GotoStmt>(s)->getLabel()->getNameAsString();
            return o;
        case Stmt::LabelStmtClass:
            o["k"] = "label";
            o["label"] = std::string(cast<LabelStmt>(s)->getName());
            o["body"] = stmt(cast<LabelStmt>(s)->getSubStmt());
            return o;
        case Stmt::SwitchStmtClass: {
            auto* w = cast<SwitchStmt>(s);
            o["k"] = "switch";
            if (w->getInit()) o["init"] = stmt(w->getInit());
            if (w->getConditionVariable()) o["var"] = varDecl(w->getConditionVariable());
            o["c"] = expr(w->getCond());
            o["body"] = stmt(w->getBody());
            return o;
        }
        case Stmt::CaseStmtClass: {
            o["k"] = "case";
            o["e"] = expr(cast<CaseStmt>(s)->getLHS());
            o["body"] = stmt(cast<CaseStmt>(s)->getSubStmt());
            return o;
        }
        case Stmt::DefaultStmtClass: {
            o["k"] = "default";
            o["body"] = stmt(cast<DefaultStmt>(s)->getSubStmt());
            return o;
        }
        case Stmt::AttributedStmtClass:
            return stmt(cast<AttributedStmt>(s)->getSubStmt());
        case Stmt::CapturedStmtClass:
            return stmt(cast<CapturedStmt>(s)->getCapturedStmt());
        case Stmt::OMPCanonicalLoopClass:
            return stmt(cast<OMPCanonicalLoop>(s)->getLoopStmt());
        case Stmt::CXXTryStmtClass: {
            auto* t = cast<CXXTryStmt>(s);
            o["k"] = "try";
            o["body"] = stmt(t->getTryBlock());
            Array hs;
            for (unsigned i = 0; i < t->getNumHandlers(); ++i) {
                auto* h = t->getHandler(i);
                Object ho;
                ho["any"] = h->getExceptionDecl() == nullptr;
                if (h->getExceptionDecl()) ho["t"] = typeId(h->getCaughtType());
                ho["body"] = stmt(h->getHandlerBlock());
                hs.push_back(std::move(ho));
            }
            o["handlers"] = std::move(hs);
            return o;
        }
        default: break;
        }
        if (auto* d = dyn_cast<OMPExecutableDirective>(s)) {
            o["k"] = "omp";
            o["dir"] = llvm::omp::getOpenMPDirectiveName(d->getDirectiveKind()).str();
            if (auto* c = dyn_cast<OMPCriticalDirective>(d)) {
                o["name"] = c->getDirectiveName().getAsString();
            }
            Array cl;
            for (auto* c : d->clauses()) {
                Object co;
                co["c"] = llvm::omp::getOpenMPClauseName(c->getClauseKind()).str();
                co["imp"] = c->isImplicit();
                Array vs;
                if (auto* r = dyn_cast<OMPReductionClause>(c)) {
                    co["op"] = r->getNameInfo().getAsString();
                    for (auto* e : r->varlists()) vs.push_back(expr(e));
                } else if (auto* r = dyn_cast<OMPPrivateClause>(c)) {
                    for (auto* e : r->varlists()) vs.push_back(expr(e));
                } else if (auto* r = dyn_cast<OMPFirstprivateClause>(c)) {
                    for (auto* e : r->varlists()) vs.push_back(expr(e));
                } else if (auto* r = dyn_cast<OMPLastprivateClause>(c)) {
                    for (auto* e : r->varlists()) vs.push_back(expr(e));
                } else if (auto* r = dyn_cast<OMPSharedClause>(c)) {
                    for (auto* e : r->varlists()) vs.push_back(expr(e));
                } else if (auto* r = dyn_cast<OMPIfClause>(c)) {
                    vs.push_back(expr(r->getCondition()));
                } else if (auto* r = dyn_cast<OMPNumThreadsClause>(c)) {
                    vs.push_back(expr(r->getNumThreads()));
                }
                co["vars"] = std::move(vs);
                cl.push_back(std::move(co));
            }
            o["clauses"] = std::move(cl);
            if (d->hasAssociatedStmt()) {
                const Stmt* a = d->getAssociatedStmt();
                while (auto* c = dyn_cast<CapturedStmt>(a)) a = c->getCapturedStmt();
                o["body"] = stmt(a);
            }
            return o;
        }
        o["k"] = "unk";
        o["cls"] = s->getStmtClassName();
        Array ch;
        for (auto* c : s->children()) ch.push_back(stmt(c));
        o["ch"] = std::move(ch);
        return o;
    }

    // ------------------------------------------------------------ expressions
    const Expr* strip(const Expr* e, bool* loaded = nullptr) {
        while (true) {
            if (auto* p = dyn_cast<ParenExpr>(e)) { e = p->getSubExpr(); continue; }
            if (auto* p = dyn_cast<FullExpr>(e)) { e = p->getSubExpr(); continue; }
            if (auto* p = dyn_cast<MaterializeTemporaryExpr>(e)) { e = p->getSubExpr(); continue; }
            if (auto* p = dyn_cast<CXXBindTemporaryExpr>(e)) { e = p->getSubExpr(); continue; }
            if (auto* p = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { e = p->getReplacement(); continue; }
            if (auto* p = dyn_cast<CXXDefaultArgExpr>(e)) { e = p->getExpr(); continue; }
            if (auto* p = dyn_cast<CXXDefaultInitExpr>(e)) { e = p->getExpr(); continue; }
            if (auto* p = dyn_cast<CXXStdInitializerListExpr>(e)) { e = p->getSubExpr(); continue; }
            if (auto* p = dyn_cast<GenericSelectionExpr>(e)) { e = p->getResultExpr(); continue; }
            if (auto* p = dyn_cast<UnaryOperator>(e)) {
                if (p->getOpcode() == UO_Extension) { e = p->getSubExpr(); continue; }
            }
            if (auto* p = dyn_cast<CastExpr>(e)) {
                switch (p->getCastKind()) {
                case CK_LValueToRValue:
                    if (loaded) *loaded = true;
                    [[fallthrough]];
                case CK_NoOp:
                case CK_ArrayToPointerDecay:
                case CK_FunctionToPointerDecay:
                case CK_DerivedToBase:
                case CK_UncheckedDerivedToBase:
                case CK_ConstructorConversion:
                case CK_UserDefinedConversion:
                case CK_BuiltinFnToFnPtr:
                case CK_ToVoid:
                    if (isa<CXXFunctionalCastExpr>(p) && p->getCastKind() == CK_ConstructorConversion) {}
                    e = p->getSubExpr();
                    continue;
                default: break;
                }
            }
            return e;
        }
    }

    Value args(const CallExpr* c, unsigned from = 0) {
        Array a;
        for (unsigned i = from; i < c->getNumArgs(); ++i) a.push_back(expr(c->getArg(i)));
        return a;
    }

    Value expr(const Expr* e0) {
        if (!e0) return nullptr;
        bool loaded = false;
        const Expr* e = strip(e0, &loaded);
        Object o;
        o["l"] = loc(e->getExprLoc());
        o["t"] = typeId(e->getType());
        if (loaded && isa<DeclRefExpr>(e)) o["ld"] = true;  // only its value is used
        if (!e->isValueDependent() && !e->isTypeDependent() && e->getType()->isIntegralOrEnumerationType()
                && !isa<IntegerLiteral>(e) && !isa<CXXBoolLiteralExpr>(e) && !isa<CharacterLiteral>(e)) {
            Expr::EvalResult r;
            if (isa<DeclRefExpr>(e) || isa<UnaryOperator>(e) || isa<BinaryOperator>(e) || isa<CastExpr>(e)
                    || isa<UnaryExprOrTypeTraitExpr>(e) || isa<CallExpr>(e) || isa<MemberExpr>(e)) {
                if (e->EvaluateAsInt(r, ctx, Expr::SE_NoSideEffects)) {
                    auto v = r.Val.getInt();
                    if (v.getSignificantBits() <= 63) o["cv"] = v.getExtValue();
                }
            }
        }
        switch (e->getStmtClass()) {
        case Stmt::IntegerLiteralClass: {
            o["k"] = "int";
            auto v = cast<IntegerLiteral>(e)->getValue();
            o["v"] = (int64_t)v.getLimitedValue(INT64_MAX);
            return o;
        }
        case Stmt::FloatingLiteralClass: {
            o["k"] = "float";
            llvm::SmallString<32> s;
            cast<FloatingLiteral>(e)->getValue().toString(s, 0, 0);
            o["v"] = cast<FloatingLiteral>(e)->getValueAsApproximateDouble();
            o["s"] = s.str().str();
            return o;
        }
        case Stmt::CXXBoolLiteralExprClass:
            o["k"] = "bool"; o["v"] = cast<CXXBoolLiteralExpr>(e)->getValue(); return o;
        case Stmt::CharacterLiteralClass:
            o["k"] = "char"; o["v"] = (int64_t)cast<CharacterLiteral>(e)->getValue(); return o;
        case Stmt::StringLiteralClass:
            o["k"] = "str";
            if (cast<StringLiteral>(e)->getCharByteWidth() == 1) o["v"] = json::fixUTF8(cast<StringLiteral>(e)->getString());
            return o;
        case Stmt::PredefinedExprClass:
            o["k"] = "str"; o["v"] = ""; return o;
        case Stmt::CXXNullPtrLiteralExprClass:
        case Stmt::GNUNullExprClass:
            o["k"] = "null"; return o;
        case Stmt::CXXThisExprClass:
            o["k"] = "this"; return o;
        case Stmt::DeclRefExprClass: {
            auto* d = cast<DeclRefExpr>(e)->getDecl();
            o["k"] = "ref";
            o["n"] = d->getNameAsString();
            if (auto* f = dyn_cast<FunctionDecl>(d)) {
                o["dk"] = "fn";
                o["fn"] = fnId(f);
            } else if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
                o["dk"] = "enum";
                o["q"] = ec->getQualifiedNameAsString();
                o["v"] = ec->getInitVal().getExtValue();
            } else if (auto* v = dyn_cast<VarDecl>(d)) {
                o["d"] = declId(v);
                if (v->hasGlobalStorage()) {
                    o["dk"] = "global";
                    o["g"] = globId(v);
                    o["q"] = v->getQualifiedNameAsString();
                } else {
                    o["dk"] = isa<ParmVarDecl>(v) ? "parm" : "var";
                }
            } else if (auto* b = dyn_cast<BindingDecl>(d)) {
                o["dk"] = "binding";
                o["d"] = declId(b);
            } else {
                o["dk"] = "other";
                o["q"] = d->getQualifiedNameAsString();
                if (auto* fd = dyn_cast<FieldDecl>(d)) {
                    o["field"] = fd->getNameAsString();
                    if (auto* cr = dyn_cast<CXXRecordDecl>(fd->getParent())) o["frec"] = recId(cr);
                }
            }
            return o;
        }
        case Stmt::MemberExprClass: {
            auto* m = cast<MemberExpr>(e);
            auto* d = m->getMemberDecl();
            if (auto* f = dyn_cast<FieldDecl>(d)) {
                o["k"] = "mem";
                o["f"] = f->getNameAsString();
                if (auto* cr = dyn_cast<CXXRecordDecl>(f->getParent())) o["rec"] = recId(cr);
                o["arrow"] = m->isArrow();
                o["b"] = expr(m->getBase());
            } else if (auto* v = dyn_cast<VarDecl>(d)) {
                o["k"] = "ref";
                o["n"] = v->getNameAsString();
                o["dk"] = "global";
                o["d"] = declId(v);
                o["g"] = globId(v);
                o["q"] = v->getQualifiedNameAsString();
            } else if (auto* fn = dyn_cast<FunctionDecl>(d)) {
                o["k"] = "memfn";
                o["fn"] = fnId(fn);
                o["b"] = expr(m->getBase());
            } else if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
                o["k"] = "ref";
                o["dk"] = "enum";
                o["n"] = ec->getNameAsString();
                o["v"] = ec->getInitVal().getExtValue();
            }
            return o;
        }
        case Stmt::ArraySubscriptExprClass: {
            auto* a = cast<ArraySubscriptExpr>(e);
            o["k"] = "idx";
            o["a"] = expr(a->getBase());
            o["b"] = expr(a->getIdx());
            return o;
        }
        case Stmt::BinaryOperatorClass:
        case Stmt::CompoundAssignOperatorClass: {
            auto* b = cast<BinaryOperator>(e);
            o["k"] = b->isAssignmentOp() ? "asg" : "bin";
            o["op"] = b->getOpcodeStr().str();
            o["a"] = expr(b->getLHS());
            o["b"] = expr(b->getRHS());
            return o;
        }
        case Stmt::UnaryOperatorClass: {
            auto* u = cast<UnaryOperator>(e);
            // &Class::member
            if (u->getOpcode() == UO_AddrOf) {
                auto* sub = u->getSubExpr()->IgnoreParens();
                if (auto* dr = dyn_cast<DeclRefExpr>(sub)) {
                    if (auto* fd = dyn_cast<FieldDecl>(dr->getDecl())) {
                        o["k"] = "memptr";
                        o["f"] = fd->getNameAsString();
                        if (auto* cr = dyn_cast<CXXRecordDecl>(fd->getParent())) o["rec"] = recId(cr);
                        return o;
                    }
                    if (auto* md = dyn_cast<CXXMethodDecl>(dr->getDecl())) {
                        o["k"] = "memptr";
                        o["fn"] = fnId(md);
                        return o;
                    }
                }
            }
            o["k"] = "un";
            o["op"] = UnaryOperator::getOpcodeStr(u->getOpcode()).str();
            if (u->isPostfix()) o["post"] = true;
            o["e"] = expr(u->getSubExpr());
            return o;
        }
        case Stmt::ConditionalOperatorClass: {
            auto* c = cast<ConditionalOperator>(e);
            o["k"] = "cond";
            o["c"] = expr(c->getCond());
            o["a"] = expr(c->getTrueExpr());
            o["b"] = expr(c->getFalseExpr());
            return o;
        }
        case Stmt::CXXOperatorCallExprClass: {
            auto* c = cast<CXXOperatorCallExpr>(e);
            o["k"] = "call";
            o["op"] = getOperatorSpelling(c->getOperator());
            auto* f = c->getDirectCallee();
            if (f) o["fn"] = fnId(f);
            if (f && isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic()) {
                o["obj"] = expr(c->getArg(0));
                o["args"] = args(c, 1);
            } else {
                o["args"] = args(c);
            }
            return o;
        }
        case Stmt::CXXMemberCallExprClass: {
            auto* c = cast<CXXMemberCallExpr>(e);
            o["k"] = "call";
            auto* f = c->getMethodDecl();
            if (f) {
                o["fn"] = fnId(f);
                o["obj"] = expr(c->getImplicitObjectArgument());
                auto* me = dyn_cast<MemberExpr>(c->getCallee()->IgnoreParens());
                if (me && me->isArrow()) o["arrow"] = true;
            } else {
                o["callee"] = expr(c->getCallee());
            }
            o["args"] = args(c);
            return o;
        }
        case Stmt::CallExprClass:
        case Stmt::UserDefinedLiteralClass: {
            auto* c = cast<CallExpr>(e);
            o["k"] = "call";
            if (auto* f = c->getDirectCallee()) o["fn"] = fnId(f);
            else o["callee"] = expr(c->getCallee());
            o["args"] = args(c);
            return o;
        }
        case Stmt::CXXConstructExprClass:
        case Stmt::CXXTemporaryObjectExprClass: {
            auto* c = cast<CXXConstructExpr>(e);
            o["k"] = "ctor";
            o["fn"] = fnId(c->getConstructor());
            if (c->isElidable()) o["elide"] = true;
            if (c->isListInitialization()) o["list"] = true;
            Array a;
            for (auto* x : c->arguments()) a.push_back(expr(x));
            o["args"] = std::move(a);
            return o;
        }
        case Stmt::CXXInheritedCtorInitExprClass: {
            auto* c = cast<CXXInheritedCtorInitExpr>(e);
            o["k"] = "ctor";
            o["fn"] = fnId(c->getConstructor());
            o["args"] = Array{};
            return o;
        }
        case Stmt::CXXNewExprClass: {
            auto* n = cast<CXXNewExpr>(e);
            o["k"] = "new";
            o["ty"] = typeId(n->getAllocatedType());
            o["arr"] = n->isArray();
            Array pl;
            for (unsigned i = 0; i < n->getNumPlacementArgs(); ++i) pl.push_back(expr(n->getPlacementArg(i)));
            o["placement"] = std::move(pl);
            if (n->getInitializer()) o["init"] = expr(n->getInitializer());
            return o;
        }
        case Stmt::CXXDeleteExprClass: {
            auto* n = cast<CXXDeleteExpr>(e);
            o["k"] = "delete";
            o["arr"] = n->isArrayForm();
            o["e"] = expr(n->getArgument());
            return o;
        }
        case Stmt::CXXThrowExprClass: {
            auto* n = cast<CXXThrowExpr>(e);
            o["k"] = "throw";
            if (n->getSubExpr()) o["e"] = expr(n->getSubExpr());
            return o;
        }
        case Stmt::InitListExprClass: {
            auto* n = cast<InitListExpr>(e);
            if (!n->isSemanticForm() && n->getSemanticForm()) n = n->getSemanticForm();
            o["k"] = "init";
            Array a;
            for (auto* x : n->inits()) a.push_back(expr(x));
            o["items"] = std::move(a);
            return o;
        }
        case Stmt::LambdaExprClass: {
            auto* n = cast<LambdaExpr>(e);
            o["k"] = "lambda";
            auto* rec = n->getLambdaClass();
            o["rec"] = recId(rec);
            Array cs;
            auto ii = n->capture_init_begin();
            for (auto ci = n->capture_begin(); ci != n->capture_end(); ++ci, ++ii) {
                Object co;
                if (ci->capturesThis()) { co["this"] = true; }
                else if (ci->capturesVariable()) {
                    co["d"] = declId(ci->getCapturedVar());
                    co["n"] = ci->getCapturedVar()->getNameAsString();
                    co["byref"] = ci->getCaptureKind() == LCK_ByRef;
                    if (*ii) co["init"] = expr(*ii);
                }
                cs.push_back(std::move(co));
            }
            o["caps"] = std::move(cs);
            Array fs;
            if (n->isGenericLambda()) {
                auto* t = rec->getDependentLambdaCallOperator();
                if (t) for (auto* sp : t->specializations()) fs.push_back(fnId(sp));
            } else {
                fs.push_back(fnId(n->getCallOperator()));
            }
            o["fns"] = std::move(fs);
            return o;
        }
        case Stmt::UnaryExprOrTypeTraitExprClass:
            o["k"] = "sizeof"; return o;
        case Stmt::ImplicitValueInitExprClass:
        case Stmt::CXXScalarValueInitExprClass:
            o["k"] = "zero"; return o;
        case Stmt::ArrayInitLoopExprClass:
            o["k"] = "arrcopy";
            o["e"] = expr(cast<ArrayInitLoopExpr>(e)->getCommonExpr()->getSourceExpr());
            return o;
        case Stmt::OpaqueValueExprClass:
            if (auto* s = cast<OpaqueValueExpr>(e)->getSourceExpr()) return expr(s);
            o["k"] = "unk"; o["cls"] = "opaque"; return o;
        case Stmt::AtomicExprClass:
            o["k"] = "unk"; o["cls"] = "atomic"; return o;
        default: break;
        }
        if (auto* c = dyn_cast<CastExpr>(e)) {
            o["k"] = "cast";
            o["ck"] = c->getCastKindName();
            o["expl"] = isa<ExplicitCastExpr>(c);
            o["e"] = expr(c->getSubExpr());
            return o;
        }
        if (auto* c = dyn_cast<CXXRewrittenBinaryOperator>(e)) return expr(c->getSemanticForm());
        o["k"] = "unk";
        o["cls"] = e->getStmtClassName();
        Array ch;
        for (auto* c : e->children()) ch.push_back(stmt(c));
        o["ch"] = std::move(ch);
        return o;
    }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
 public:
    Exporter& ex;
    explicit Visitor(Exporter& e) : ex(e) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl* f) {
        if (f->isDependentContext()) return true;
        const FunctionDecl* d = nullptr;
        if (!f->isDefined(d) || !d || !d->getBody()) return true;
        if (!ex.inRoots(d->getLocation())) return true;
        ex.fnId(f);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* r) {
        if (r->isDependentContext() || !r->isThisDeclarationADefinition()) return true;
        if (!ex.inRoots(r->getLocation())) return true;
        ex.recId(r);
        return true;
    }
    bool VisitVarDecl(VarDecl* v) {
        if (v->getDeclContext()->isDependentContext() || v->getType()->isDependentType()) return true;
        if (!v->hasGlobalStorage() || !ex.inRoots(v->getLocation())) return true;
        ex.globId(v);
        return true;
    }
};

class Consumer : public ASTConsumer {
 public:
    void HandleTranslationUnit(ASTContext& ctx) override {
        if (ctx.getDiagnostics().hasErrorOccurred()) return;
        Exporter ex(ctx);
        Visitor v(ex);
        v.TraverseDecl(ctx.getTranslationUnitDecl());
        ex.drain();
        std::error_code ec;
        llvm::raw_fd_ostream os(gOut, ec);
        Object root;
        auto arr = [](std::vector<Object>& xs) {
            Array a;
            for (auto& x : xs) a.push_back(std::move(x));
            return a;
        };
        Array fs;
        for (auto& f : ex.files) fs.push_back(f);
        root["files"] = std::move(fs);
        root["fns"] = arr(ex.fns);
        root["types"] = arr(ex.types);
        root["recs"] = arr(ex.recs);
        root["globs"] = arr(ex.globs);
        os << Value(std::move(root));
    }
};

class Action : public ASTFrontendAction {
 public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override {
        return std::make_unique<Consumer>();
    }
};
}  // namespace

// usage: export OUT.json ROOT[,ROOT...] FILE -- FLAGS...
int main(int argc, char** argv) {
    if (argc < 4) return 2;
    gOut = argv[1];
    std::string roots = argv[2];
    size_t p = 0;
    while (p < roots.size()) {
        size_t q = roots.find(',', p);
        if (q == std::string::npos) q = roots.size();
        gRoots.push_back(roots.substr(p, q - p));
        p = q + 1;
    }
    std::vector<std::string> flags;
    for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, {argv[3]});
    int rc = tool.run(tooling::newFrontendActionFactory<Action>().get());
    return rc;
}
