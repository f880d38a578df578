// Fact extractor: dumps the resolved program (classes, enums, globals, function bodies as a normalised
// expression/statement IR) of one or more translation units as JSON lines, one record per line.
// No verdict is taken here; the rules (sa/*.py) work on these records.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Basic/SourceManager.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Frontend/FrontendActions.h>
#include <clang/Sema/Sema.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>

#include <deque>
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::string g_root;      // absolute root of the analysed tree, with trailing '/'
static bool g_uses = false;        // main file is outside the repository and says which instances to analyse
static bool g_allHeaders = false;  // emit every inline function of repo headers (header TU)

namespace {

class Emitter {
public:
    Emitter(ASTContext& ctx, llvm::raw_ostream& os) : m_ctx(ctx), m_sm(ctx.getSourceManager()), m_pp(ctx.getLangOpts()), m_os(os) {
        m_pp.SuppressTagKeyword = true;
        m_pp.Bool = true;
        m_pp.SuppressUnwrittenScope = false;
        m_pp.FullyQualifiedName = true;
        m_pp.PrintCanonicalTypes = true;
        m_pp.TerseOutput = true;
        m_pp.AnonymousTagLocations = false;
    }

    // ---------- locations
    std::string fileOf(SourceLocation loc) const {
        loc = m_sm.getExpansionLoc(loc);
        if (loc.isInvalid()) return "";
        llvm::StringRef f = m_sm.getFilename(loc);
        std::string s = f.str();
        // normalise
        llvm::SmallString<256> p(s);
        if (!llvm::sys::path::is_absolute(p)) {
            llvm::SmallString<256> cwd;
            llvm::sys::fs::current_path(cwd);
            llvm::sys::path::append(cwd, p);
            p = cwd;
        }
        llvm::sys::path::remove_dots(p, true);
        return std::string(p.str());
    }
    bool inRepo(SourceLocation loc) const {
        std::string f = fileOf(loc);
        return f.compare(0, g_root.size(), g_root) == 0;
    }
    std::string rel(SourceLocation loc) const {
        std::string f = fileOf(loc);
        if (f.compare(0, g_root.size(), g_root) == 0) return f.substr(g_root.size());
        return f;
    }
    unsigned line(SourceLocation loc) const { return m_sm.getExpansionLineNumber(loc); }

    // ---------- names
    std::string typeStr(QualType t) const {
        if (t.isNull()) return "?";
        return t.getCanonicalType().getAsString(m_pp);
    }
    static bool isExternal(const std::string& qn) {
        return qn.compare(0, 9, "powsybl::") != 0;
    }
    std::string qual(const NamedDecl* d) const {
        std::string s;
        llvm::raw_string_ostream os(s);
        // plain qualified name without template args
        d->printQualifiedName(os, m_pp);
        return os.str();
    }
    std::string classId(const CXXRecordDecl* r) const {
        if (!r) return "";
        if (r->isLambda()) return "<lambda>";
        if (auto* d = r->getDefinition()) r = d;
        std::string s = m_ctx.getTypeDeclType(r).getCanonicalType().getAsString(m_pp);
        return s;
    }
    static std::string plainNameOf(const NamedDecl* d) {
        return d->getNameAsString();
    }
    bool repoDecl(const Decl* d) const {
        return inRepo(d->getLocation());
    }
    std::string funcName(const FunctionDecl* f) const {
        // name without class qualification
        if (isa<CXXConstructorDecl>(f)) return "<ctor>";
        if (isa<CXXDestructorDecl>(f)) return "<dtor>";
        if (isa<CXXConversionDecl>(f)) return "operator " + typeStr(f->getReturnType());
        return f->getNameAsString();
    }
    std::string funcId(const FunctionDecl* f) const {
        if (!repoDecl(f)) {
            // external: qualified name, no template args, no params
            return qual(f);
        }
        std::string s;
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            s = classId(m->getParent()) + "::" + funcName(f);
        } else {
            s = qual(f);
        }
        if (auto* args = f->getTemplateSpecializationArgs()) {
            llvm::raw_string_ostream os(s);
            os << '<';
            bool first = true;
            for (const auto& a : args->asArray()) {
                if (!first) os << ", ";
                first = false;
                a.print(m_pp, os, true);
            }
            os << '>';
        }
        s += '(';
        bool first = true;
        for (auto* p : f->parameters()) {
            if (!first) s += ", ";
            first = false;
            s += typeStr(p->getType());
        }
        s += ')';
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            if (m->isConst()) s += " const";
        }
        if (f->getLinkageInternal() == Linkage::Internal || f->isInAnonymousNamespace()) {
            s += "@" + rel(f->getLocation());
        }
        return s;
    }
    json::Value tmplArgs(const FunctionDecl* f) const {
        json::Array out;
        if (auto* args = f->getTemplateSpecializationArgs()) {
            for (const auto& a : args->asArray()) {
                std::string s;
                llvm::raw_string_ostream os(s);
                a.print(m_pp, os, true);
                out.push_back(os.str());
            }
        }
        return json::Value(std::move(out));
    }
    std::string varId(const VarDecl* v) {
        if (v->isLocalVarDeclOrParm() && !v->isStaticLocal()) {
            auto it = m_locals.find(v);
            if (it == m_locals.end()) {
                it = m_locals.emplace(v, v->getNameAsString() + "#" + std::to_string(m_locals.size())).first;
            }
            return it->second;
        }
        std::string s = qual(v);
        if (v->getLinkageInternal() == Linkage::Internal && inRepo(v->getLocation()) && !v->isStaticDataMember()) {
            // header constants have internal linkage too: identify by file
            s += "@" + rel(v->getLocation());
        }
        if (v->isStaticLocal()) s += "@static:" + rel(v->getLocation()) + ":" + std::to_string(m_sm.getFileOffset(m_sm.getExpansionLoc(v->getLocation())));
        return s;
    }

    // ---------- work list
    std::set<const FunctionDecl*> m_queued;
    std::deque<const FunctionDecl*> m_queue;
    std::set<const CXXRecordDecl*> m_classesSeen;
    std::deque<const CXXRecordDecl*> m_classQueue;
    std::set<const EnumDecl*> m_enumsSeen;
    std::set<const VarDecl*> m_varsSeen;

    void wantClass(const CXXRecordDecl* r) {
        if (!r || r->isLambda()) return;
        r = r->getDefinition();
        if (!r || r->isDependentContext() || !repoDecl(r)) return;
        if (!g_allHeaders && !isa<ClassTemplateSpecializationDecl>(r)) {
            // public headers are covered by the header unit
            if (rel(r->getLocation()).compare(0, 8, "include/") == 0) return;
        }
        if (m_classesSeen.insert(r).second) m_classQueue.push_back(r);
    }
    void wantFunction(const FunctionDecl* f) {
        if (!f) return;
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            if (m->getParent()->isLambda()) return;
            wantClass(m->getParent());
        }
        const FunctionDecl* def = nullptr;
        if (!f->isDefined(def) || !def) {
            return;
        }
        if (def->isDependentContext() || !repoDecl(def)) return;
        if (def->isImplicit() || def->isDefaulted()) return;
        bool inst = def->isTemplateInstantiation() || (isa<CXXMethodDecl>(def) && isa<ClassTemplateSpecializationDecl>(cast<CXXMethodDecl>(def)->getParent()));
        if (!inst && !g_allHeaders && !m_sm.isInMainFile(m_sm.getExpansionLoc(def->getLocation()))) {
            // inline function of a header: emitted by the header unit, unless the header is private (src/)
            std::string f2 = rel(def->getLocation());
            if (f2.compare(0, 8, "include/") == 0) return;
        }
        if (m_queued.insert(def->getCanonicalDecl()).second) m_queue.push_back(def);
    }
    void wantGlobal(const VarDecl* v) {
        if (!v->hasGlobalStorage() || v->isStaticLocal()) return;
        if (!inRepo(v->getLocation())) return;
        const VarDecl* def = nullptr;
        const Expr* init = v->getAnyInitializer(def);
        if (!init || !def) return;
        if (init->isValueDependent() || init->isTypeDependent()) return;
        if (!g_allHeaders && rel(def->getLocation()).compare(0, 8, "include/") == 0) return;
        if (!m_varsSeen.insert(def->getCanonicalDecl()).second) return;
        auto saved = std::move(m_locals);
        m_locals.clear();
        json::Object o;
        o["r"] = "global";
        o["id"] = varId(v);
        o["t"] = typeStr(v->getType());
        if (v->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
        o["file"] = rel(def->getLocation());
        o["line"] = line(def->getLocation());
        o["init"] = expr(init);
        emit(std::move(o));
        m_locals = std::move(saved);
    }
    void emit(json::Object o) {
        m_os << json::Value(std::move(o)) << '\n';
    }

    // ---------- expressions
    static const Expr* strip(const Expr* e) {
        while (e) {
            if (auto* x = dyn_cast<ParenExpr>(e)) e = x->getSubExpr();
            else if (auto* x = dyn_cast<ExprWithCleanups>(e)) e = x->getSubExpr();
            else if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) e = x->getSubExpr();
            else if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) e = x->getSubExpr();
            else if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = x->getReplacement();
            else if (auto* x = dyn_cast<ConstantExpr>(e)) e = x->getSubExpr();
            else if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) e = x->getExpr();
            else if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) e = x->getExpr();
            else if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) e = x->getSubExpr();
            else if (auto* x = dyn_cast<ImplicitCastExpr>(e)) {
                e = x->getSubExpr();
            } else break;
        }
        return e;
    }
    json::Array exprs(llvm::iterator_range<CallExpr::const_arg_iterator> r) {
        json::Array a;
        for (auto* e : r) a.push_back(expr(e));
        return a;
    }
    json::Object calleeInfo(const FunctionDecl* f) {
        json::Object o;
        wantFunction(f);
        o["f"] = funcId(f);
        o["n"] = funcName(f);
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            o["c"] = classId(m->getParent());
            if (!repoDecl(f)) {
                // external classes: short name without args
                o["c"] = qual(m->getParent());
            }
        }
        if (f->getTemplateSpecializationArgs() && repoDecl(f)) o["ta"] = tmplArgs(f);
        return o;
    }
    json::Value expr(const Expr* e0) {
        if (!e0) return nullptr;
        const Expr* e = strip(e0);
        if (!e) return nullptr;
        json::Object o;
        o["l"] = line(e->getExprLoc());
        if (auto* x = dyn_cast<IntegerLiteral>(e)) {
            o["k"] = "int";
            llvm::SmallString<32> s;
            x->getValue().toString(s, 10, e->getType()->isSignedIntegerType());
            o["v"] = s.str().str();
            return o;
        }
        if (auto* x = dyn_cast<CharacterLiteral>(e)) { o["k"] = "int"; o["v"] = std::to_string(x->getValue()); return o; }
        if (auto* x = dyn_cast<FloatingLiteral>(e)) { o["k"] = "float"; llvm::SmallString<32> s; x->getValue().toString(s); o["v"] = s.str().str(); return o; }
        if (auto* x = dyn_cast<clang::StringLiteral>(e)) { o["k"] = "str"; o["v"] = llvm::json::fixUTF8(x->getBytes()); return o; }
        if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) { o["k"] = "bool"; o["v"] = x->getValue(); return o; }
        if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { o["k"] = "null"; return o; }
        if (isa<CXXThisExpr>(e)) { o["k"] = "this"; return o; }
        if (auto* x = dyn_cast<DeclRefExpr>(e)) {
            const ValueDecl* d = x->getDecl();
            if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
                o["k"] = "enum";
                const auto* ed = cast<EnumDecl>(ec->getDeclContext());
                wantEnum(ed);
                o["e"] = qual(ed);
                o["v"] = ec->getNameAsString();
                return o;
            }
            if (auto* v = dyn_cast<VarDecl>(d)) {
                wantGlobal(v);
                o["k"] = "var";
                o["d"] = varId(v);
                o["t"] = typeStr(v->getType());
                return o;
            }
            if (auto* f = dyn_cast<FunctionDecl>(d)) {
                json::Object c = calleeInfo(f);
                c["k"] = "fref";
                c["l"] = line(e->getExprLoc());
                return c;
            }
            o["k"] = "other";
            o["s"] = "declref";
            return o;
        }
        if (auto* x = dyn_cast<MemberExpr>(e)) {
            const ValueDecl* d = x->getMemberDecl();
            if (auto* fd = dyn_cast<FieldDecl>(d)) {
                o["k"] = "mem";
                o["b"] = expr(x->getBase());
                o["f"] = fd->getNameAsString();
                auto* rd = dyn_cast<CXXRecordDecl>(fd->getParent());
                o["c"] = classId(rd);
                wantClass(rd);
                o["t"] = typeStr(fd->getType());
                return o;
            }
            if (auto* v = dyn_cast<VarDecl>(d)) {
                wantGlobal(v);
                o["k"] = "var"; o["d"] = varId(v); o["t"] = typeStr(v->getType());
                return o;
            }
            if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
                o["k"] = "enum"; o["e"] = qual(cast<EnumDecl>(ec->getDeclContext())); o["v"] = ec->getNameAsString();
                return o;
            }
            if (auto* m = dyn_cast<CXXMethodDecl>(d)) {
                json::Object c = calleeInfo(m);
                c["k"] = "mref"; c["o"] = expr(x->getBase());
                return c;
            }
        }
        if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
            const CXXMethodDecl* m = x->getMethodDecl();
            if (m) {
                json::Object c = calleeInfo(m);
                c["k"] = "call";
                c["l"] = line(e->getExprLoc());
                c["o"] = expr(x->getImplicitObjectArgument());
                bool virt = m->isVirtual();
                if (auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) {
                    if (me->hasQualifier()) virt = false;
                }
                if (virt) c["v"] = true;
                c["ot"] = typeStr(x->getImplicitObjectArgument()->getType());
                c["a"] = exprs(x->arguments());
                c["t"] = typeStr(x->getType());
                return c;
            }
            o["k"] = "icall"; o["c"] = expr(x->getCallee()); o["a"] = exprs(x->arguments());
            return o;
        }
        if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
            const FunctionDecl* f = x->getDirectCallee();
            if (f) {
                bool lam = false;
                if (auto* m = dyn_cast<CXXMethodDecl>(f)) lam = m->getParent()->isLambda();
                json::Object c;
                if (lam) { c["f"] = "<lambda>"; c["n"] = "operator()"; }
                else c = calleeInfo(f);
                c["k"] = "call";
                c["l"] = line(e->getExprLoc());
                c["opc"] = getOperatorSpelling(x->getOperator());
                json::Array a;
                unsigned start = 0;
                auto* m = dyn_cast<CXXMethodDecl>(f);
                if (m && m->isInstance()) {
                    c["o"] = expr(x->getArg(0));
                    c["ot"] = typeStr(x->getArg(0)->getType());
                    if (m->isVirtual()) c["v"] = true;
                    start = 1;
                }
                for (unsigned i = start; i < x->getNumArgs(); ++i) a.push_back(expr(x->getArg(i)));
                c["a"] = std::move(a);
                c["t"] = typeStr(x->getType());
                return c;
            }
        }
        if (auto* x = dyn_cast<CallExpr>(e)) {
            if (const FunctionDecl* f = x->getDirectCallee()) {
                json::Object c = calleeInfo(f);
                c["k"] = "call";
                c["l"] = line(e->getExprLoc());
                c["a"] = exprs(x->arguments());
                c["t"] = typeStr(x->getType());
                return c;
            }
            o["k"] = "icall"; o["c"] = expr(x->getCallee()); o["a"] = exprs(x->arguments());
            return o;
        }
        if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
            const CXXConstructorDecl* c = x->getConstructor();
            json::Object r = calleeInfo(c);
            r["k"] = "ctor";
            r["l"] = line(e->getExprLoc());
            json::Array a;
            unsigned nondef = 0;
            for (unsigned i = 0; i < x->getNumArgs(); ++i) {
                if (!isa<CXXDefaultArgExpr>(x->getArg(i))) ++nondef;
                a.push_back(expr(x->getArg(i)));
            }
            r["a"] = std::move(a);
            r["t"] = typeStr(x->getType());
            if (c->isCopyOrMoveConstructor()) { r["cp"] = c->isMoveConstructor() ? "move" : "copy"; }
            if (x->isListInitialization()) r["li"] = true;
            return r;
        }
        if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
            json::Object r = calleeInfo(x->getConstructor());
            r["k"] = "ctor"; r["inherited"] = true; r["a"] = json::Array(); r["t"] = typeStr(x->getType());
            return r;
        }
        if (auto* x = dyn_cast<UnaryOperator>(e)) {
            o["k"] = "un"; o["o"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
            if (x->isPostfix()) o["post"] = true;
            o["a"] = expr(x->getSubExpr());
            return o;
        }
        if (auto* x = dyn_cast<BinaryOperator>(e)) {
            o["k"] = "bin"; o["o"] = x->getOpcodeStr().str();
            o["a"] = expr(x->getLHS()); o["b"] = expr(x->getRHS());
            return o;
        }
        if (auto* x = dyn_cast<AbstractConditionalOperator>(e)) {
            o["k"] = "cond"; o["c"] = expr(x->getCond()); o["a"] = expr(x->getTrueExpr()); o["b"] = expr(x->getFalseExpr());
            return o;
        }
        if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) {
            o["k"] = "idx"; o["a"] = expr(x->getBase()); o["b"] = expr(x->getIdx());
            return o;
        }
        if (auto* x = dyn_cast<CXXNewExpr>(e)) {
            o["k"] = "new"; o["t"] = typeStr(x->getAllocatedType());
            if (x->getInitializer()) o["a"] = expr(x->getInitializer());
            else if (x->getConstructExpr()) o["a"] = expr(x->getConstructExpr());
            return o;
        }
        if (auto* x = dyn_cast<CXXDeleteExpr>(e)) { o["k"] = "delete"; o["a"] = expr(x->getArgument()); return o; }
        if (auto* x = dyn_cast<CXXThrowExpr>(e)) { o["k"] = "throw"; if (x->getSubExpr()) o["a"] = expr(x->getSubExpr()); return o; }
        if (auto* x = dyn_cast<ExplicitCastExpr>(e)) {
            const Expr* sub = x->getSubExpr();
            o["k"] = "cast"; o["t"] = typeStr(x->getType());
            o["ck"] = isa<CXXDynamicCastExpr>(x) ? "dynamic" : isa<CXXConstCastExpr>(x) ? "const" : isa<CXXReinterpretCastExpr>(x) ? "reinterpret" : "static";
            o["st"] = typeStr(sub->getType());
            o["a"] = expr(sub);
            return o;
        }
        if (auto* x = dyn_cast<LambdaExpr>(e)) {
            o["k"] = "lambda";
            json::Array caps;
            for (const auto& c : x->captures()) {
                json::Object co;
                if (c.capturesThis()) co["n"] = "this";
                else if (c.capturesVariable()) {
                    if (auto* vd = dyn_cast<VarDecl>(c.getCapturedVar())) co["n"] = varId(vd);
                    co["ref"] = c.getCaptureKind() == LCK_ByRef;
                }
                caps.push_back(std::move(co));
            }
            o["caps"] = std::move(caps);
            json::Array ps;
            for (auto* p : x->getCallOperator()->parameters()) {
                json::Object po; po["d"] = varId(p); po["t"] = typeStr(p->getType()); ps.push_back(std::move(po));
            }
            o["p"] = std::move(ps);
            o["body"] = stmt(x->getBody());
            return o;
        }
        if (auto* x = dyn_cast<InitListExpr>(e)) {
            if (!x->isSemanticForm() && x->getSemanticForm()) x = x->getSemanticForm();
            o["k"] = "list"; o["t"] = typeStr(x->getType());
            json::Array a;
            for (auto* i : x->inits()) a.push_back(expr(i));
            o["a"] = std::move(a);
            return o;
        }
        if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) { o["k"] = "zero"; o["t"] = typeStr(e->getType()); return o; }
        if (auto* x = dyn_cast<CXXTypeidExpr>(e)) {
            o["k"] = "typeid";
            if (x->isTypeOperand()) o["t"] = typeStr(x->getTypeOperand(m_ctx)); else o["a"] = expr(x->getExprOperand());
            return o;
        }
        if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
            o["k"] = "sizeof"; 
            Expr::EvalResult r;
            if (!e->isValueDependent() && e->EvaluateAsInt(r, m_ctx)) { o["k"] = "int"; llvm::SmallString<32> s; r.Val.getInt().toString(s, 10); o["v"] = s.str().str(); }
            (void)x;
            return o;
        }
        o["k"] = "other"; o["s"] = e->getStmtClassName();
        json::Array a;
        for (const Stmt* c : e->children()) {
            if (auto* ce = dyn_cast_or_null<Expr>(c)) a.push_back(expr(ce));
        }
        o["a"] = std::move(a);
        return o;
    }

    // ---------- statements
    json::Value varDecl(const VarDecl* v) {
        json::Object o;
        o["d"] = varId(v);
        o["n"] = v->getNameAsString();
        o["t"] = typeStr(v->getType());
        o["l"] = line(v->getLocation());
        if (v->isStaticLocal()) o["static"] = true;
        if (v->getInit()) o["init"] = expr(v->getInit());
        if (auto* r = v->getType()->getAsCXXRecordDecl()) wantClass(r);
        return o;
    }
    json::Value stmt(const Stmt* s) {
        if (!s) return nullptr;
        json::Object o;
        o["l"] = line(s->getBeginLoc());
        if (auto* x = dyn_cast<CompoundStmt>(s)) {
            o["k"] = "block"; json::Array a;
            for (auto* c : x->body()) a.push_back(stmt(c));
            o["b"] = std::move(a);
            return o;
        }
        if (auto* x = dyn_cast<DeclStmt>(s)) {
            o["k"] = "decl"; json::Array a;
            for (auto* d : x->decls()) {
                if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(varDecl(v));
            }
            o["v"] = std::move(a);
            return o;
        }
        if (auto* x = dyn_cast<IfStmt>(s)) {
            o["k"] = "if";
            if (x->getInit()) o["init"] = stmt(x->getInit());
            if (x->getConditionVariable()) o["cv"] = varDecl(x->getConditionVariable());
            o["c"] = expr(x->getCond()); o["t"] = stmt(x->getThen()); o["e"] = stmt(x->getElse());
            return o;
        }
        if (auto* x = dyn_cast<ForStmt>(s)) {
            o["k"] = "for"; o["i"] = stmt(x->getInit()); o["c"] = expr(x->getCond()); o["n"] = expr(x->getInc()); o["b"] = stmt(x->getBody());
            return o;
        }
        if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
            o["k"] = "rfor"; o["v"] = varDecl(x->getLoopVariable()); o["r"] = expr(x->getRangeInit());
            o["rt"] = typeStr(x->getRangeInit()->getType());
            o["b"] = stmt(x->getBody());
            // conversion applied to *it, if any, is in the loop variable's initialiser
            return o;
        }
        if (auto* x = dyn_cast<WhileStmt>(s)) { o["k"] = "while"; o["c"] = expr(x->getCond()); if (x->getConditionVariable()) o["cv"] = varDecl(x->getConditionVariable()); o["b"] = stmt(x->getBody()); return o; }
        if (auto* x = dyn_cast<DoStmt>(s)) { o["k"] = "do"; o["c"] = expr(x->getCond()); o["b"] = stmt(x->getBody()); return o; }
        if (auto* x = dyn_cast<SwitchStmt>(s)) {
            o["k"] = "switch"; o["c"] = expr(x->getCond()); o["b"] = stmt(x->getBody());
            QualType ct = x->getCond()->IgnoreParenImpCasts()->getType();
            o["t"] = typeStr(ct);
            if (auto* et = ct->getAs<EnumType>()) wantEnum(et->getDecl());
            return o;
        }
        if (auto* x = dyn_cast<CaseStmt>(s)) { o["k"] = "case"; o["v"] = expr(x->getLHS()); o["b"] = stmt(x->getSubStmt()); return o; }
        if (auto* x = dyn_cast<DefaultStmt>(s)) { o["k"] = "default"; o["b"] = stmt(x->getSubStmt()); return o; }
        if (auto* x = dyn_cast<ReturnStmt>(s)) { o["k"] = "ret"; if (x->getRetValue()) o["e"] = expr(x->getRetValue()); return o; }
        if (isa<BreakStmt>(s)) { o["k"] = "break"; return o; }
        if (isa<ContinueStmt>(s)) { o["k"] = "continue"; return o; }
        if (isa<NullStmt>(s)) { o["k"] = "block"; o["b"] = json::Array(); return o; }
        if (auto* x = dyn_cast<CXXTryStmt>(s)) {
            o["k"] = "try"; o["b"] = stmt(x->getTryBlock()); json::Array a;
            for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
                json::Object h; auto* c = x->getHandler(i);
                h["t"] = c->getExceptionDecl() ? typeStr(c->getCaughtType()) : "...";
                if (c->getExceptionDecl()) h["v"] = varId(c->getExceptionDecl());
                h["b"] = stmt(c->getHandlerBlock());
                a.push_back(std::move(h));
            }
            o["h"] = std::move(a);
            return o;
        }
        if (auto* x = dyn_cast<Expr>(s)) { o["k"] = "expr"; o["e"] = expr(x); return o; }
        o["k"] = "otherstmt"; o["s"] = s->getStmtClassName();
        return o;
    }

    // ---------- declarations
    void wantEnum(const EnumDecl* d) {
        if (!d) return;
        if (d->getDefinition()) d = d->getDefinition();
        if (!repoDecl(d)) return;
        if (!g_allHeaders && rel(d->getLocation()).compare(0, 8, "include/") == 0) return;
        if (!m_enumsSeen.insert(d).second) return;
        json::Object o;
        o["r"] = "enum"; o["id"] = qual(d); o["file"] = rel(d->getLocation()); o["line"] = line(d->getLocation());
        json::Array a;
        for (auto* c : d->enumerators()) {
            json::Object e; e["n"] = c->getNameAsString(); llvm::SmallString<16> s; c->getInitVal().toString(s, 10); e["v"] = s.str().str();
            a.push_back(std::move(e));
        }
        o["v"] = std::move(a);
        o["t"] = typeStr(m_ctx.getTypeDeclType(d));
        emit(std::move(o));
    }
    void emitClass(const CXXRecordDecl* r) {
        json::Object o;
        o["r"] = "class"; o["id"] = classId(r); o["qn"] = qual(r);
        o["file"] = rel(r->getLocation()); o["line"] = line(r->getLocation());
        o["abstract"] = r->isAbstract();
        o["poly"] = r->isPolymorphic();
        json::Array bs;
        for (const auto& b : r->bases()) {
            json::Object bo;
            auto* br = b.getType()->getAsCXXRecordDecl();
            bo["c"] = br ? (repoDecl(br) ? classId(br) : typeStr(b.getType())) : typeStr(b.getType());
            bo["v"] = b.isVirtual();
            wantClass(br);
            bs.push_back(std::move(bo));
        }
        o["bases"] = std::move(bs);
        json::Array fs;
        for (auto* f : r->fields()) {
            json::Object fo; fo["n"] = f->getNameAsString(); fo["t"] = typeStr(f->getType()); fo["l"] = line(f->getLocation());
            if (f->isMutable()) fo["mutable"] = true;
            if (f->hasInClassInitializer()) {
                const Expr* in = f->getInClassInitializer();
                if (!in) { // member of a class template instance that was not instantiated: the pattern's
                    if (auto* pat = r->getTemplateInstantiationPattern()) {
                        for (auto* pf : pat->fields()) {
                            if (pf->getFieldIndex() == f->getFieldIndex()) in = pf->getInClassInitializer();
                        }
                    }
                }
                if (in && !in->isTypeDependent() && !in->isValueDependent()) {
                    auto saved = std::move(m_locals); m_locals.clear();
                    fo["init"] = expr(in);
                    m_locals = std::move(saved);
                }
            }
            if (auto* fr = f->getType()->getAsCXXRecordDecl()) wantClass(fr);
            fs.push_back(std::move(fo));
        }
        o["fields"] = std::move(fs);
        json::Array ms;
        for (auto* d : r->decls()) {
            auto* m = dyn_cast<CXXMethodDecl>(d);
            if (!m) {
                if (auto* ed = dyn_cast<EnumDecl>(d)) wantEnum(ed);
                if (auto* nr = dyn_cast<CXXRecordDecl>(d)) wantClass(nr);
                continue;
            }
            if (m->isImplicit()) continue;
            json::Object mo;
            mo["f"] = funcId(m); mo["n"] = funcName(m);
            mo["acc"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private";
            if (m->isVirtual()) mo["v"] = true;
            if (m->isPureVirtual()) mo["pure"] = true;
            if (m->isConst()) mo["const"] = true;
            if (m->isStatic()) mo["static"] = true;
            if (m->isDeleted()) mo["deleted"] = true;
            if (m->isDefaulted()) mo["defaulted"] = true;
            if (auto* c = dyn_cast<CXXConstructorDecl>(m)) {
                if (c->isMoveConstructor()) mo["mv"] = true;
                if (c->isCopyConstructor()) mo["cpy"] = true;
            }
            if (m->isMoveAssignmentOperator()) mo["mva"] = true;
            mo["rt"] = typeStr(m->getReturnType());
            json::Array ps;
            for (auto* p : m->parameters()) ps.push_back(typeStr(p->getType()));
            mo["p"] = std::move(ps);
            json::Array ov;
            for (auto* q : m->overridden_methods()) ov.push_back(funcId(q));
            if (!ov.empty()) mo["ov"] = std::move(ov);
            mo["l"] = line(m->getLocation());
            ms.push_back(std::move(mo));
            if (g_allHeaders || isa<ClassTemplateSpecializationDecl>(r)) wantFunction(m);
        }
        o["methods"] = std::move(ms);
        emit(std::move(o));
    }
    void emitFunction(const FunctionDecl* f) {
        m_locals.clear();
        json::Object o;
        o["r"] = "func"; o["id"] = funcId(f); o["n"] = funcName(f);
        o["qn"] = qual(f);
        o["file"] = rel(f->getLocation()); o["line"] = line(f->getLocation());
        o["rt"] = typeStr(f->getReturnType());
        if (f->getTemplateSpecializationArgs()) o["ta"] = tmplArgs(f);
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            o["c"] = classId(m->getParent());
            if (m->isVirtual()) o["v"] = true;
            if (m->isConst()) o["const"] = true;
            if (m->isStatic()) o["static"] = true;
            o["acc"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private";
            wantClass(m->getParent());
        }
        json::Array ps;
        for (auto* p : f->parameters()) {
            json::Object po; po["d"] = varId(p); po["n"] = p->getNameAsString(); po["t"] = typeStr(p->getType());
            ps.push_back(std::move(po));
        }
        o["p"] = std::move(ps);
        if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
            o["kind"] = "ctor";
            if (c->isMoveConstructor()) o["mv"] = true;
            if (c->isCopyConstructor()) o["cpy"] = true;
            json::Array is;
            for (auto* i : c->inits()) {
                json::Object io;
                if (i->isMemberInitializer() && i->getMember()) io["f"] = i->getMember()->getNameAsString();
                else if (i->isBaseInitializer()) {
                    auto* br = i->getBaseClass()->getAsCXXRecordDecl();
                    io["b"] = br ? (repoDecl(br) ? classId(br) : typeStr(QualType(i->getBaseClass(), 0))) : "?";
                } else if (i->isDelegatingInitializer()) io["deleg"] = true;
                io["w"] = i->isWritten();
                io["l"] = line(i->getSourceLocation());
                if (i->getInit()) io["e"] = expr(i->getInit());
                is.push_back(std::move(io));
            }
            o["inits"] = std::move(is);
        } else if (isa<CXXDestructorDecl>(f)) o["kind"] = "dtor";
        o["body"] = stmt(f->getBody());
        emit(std::move(o));
    }
    void drain() {
        while (!m_queue.empty() || !m_classQueue.empty()) {
            if (!m_classQueue.empty()) { auto* r = m_classQueue.front(); m_classQueue.pop_front(); emitClass(r); continue; }
            auto* f = m_queue.front(); m_queue.pop_front(); emitFunction(f);
        }
    }

    ASTContext& m_ctx;
    SourceManager& m_sm;
    PrintingPolicy m_pp;
    llvm::raw_ostream& m_os;
    std::map<const VarDecl*, std::string> m_locals;
};

// collects the roots: every non-dependent function/class/enum/variable declared in the main file (or in repo headers for the header unit)
class Roots : public RecursiveASTVisitor<Roots> {
public:
    explicit Roots(Emitter& e) : m_e(e) {}
    bool shouldVisitTemplateInstantiations() const { return false; }
    bool shouldVisitImplicitCode() const { return false; }
    bool VisitFunctionDecl(FunctionDecl* f) {
        if (f->isThisDeclarationADefinition() && !f->isDependentContext()) m_e.wantFunction(f);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* r) { if (r->isThisDeclarationADefinition()) m_e.wantClass(r); return true; }
    bool VisitEnumDecl(EnumDecl* d) { m_e.wantEnum(d); return true; }
    bool VisitVarDecl(VarDecl* v) { if (v->hasGlobalStorage() && !v->isStaticLocal() && !v->getDeclContext()->isDependentContext()) m_e.wantGlobal(v); return true; }
    Emitter& m_e;
};

// what a file of uses (outside the repository) calls: the instances it asks for
class Uses : public RecursiveASTVisitor<Uses> {
public:
    explicit Uses(Emitter& e) : m_e(e) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool VisitCallExpr(CallExpr* c) { if (auto* f = c->getDirectCallee()) m_e.wantFunction(f); return true; }
    Emitter& m_e;
};

class Consumer : public ASTConsumer {
public:
    Consumer(CompilerInstance& ci, llvm::raw_ostream& os) : m_ci(ci), m_os(os) {}

    // Members of class template instances that no library source uses are still part of the interface: instantiate them,
    // so that they are analysed too (e.g. TapChanger<...>::setTapPosition, which only user code calls).
    class Instances : public RecursiveASTVisitor<Instances> {
    public:
        explicit Instances(Emitter& e) : m_e(e) {}
        bool shouldVisitTemplateInstantiations() const { return true; }
        bool VisitCXXRecordDecl(CXXRecordDecl* r) {
            if (!r->isThisDeclarationADefinition() || r->isDependentContext() || !m_e.inRepo(r->getLocation())) return true;
            for (auto* m : r->methods()) {
                if (m->isDefined() || m->isDefaulted() || m->isDeleted() || m->isPureVirtual() || !m->isTemplateInstantiation()) continue;
                if (auto* pat = m->getTemplateInstantiationPattern())
                    if (pat->isDefined()) todo.push_back(m);
            }
            return true;
        }
        Emitter& m_e;
        std::vector<CXXMethodDecl*> todo;
    };
    void instantiate(Emitter& em, std::vector<CXXMethodDecl*>& done) {
        Sema& s = m_ci.getSema();
        auto& diags = m_ci.getDiagnostics();
        bool old = diags.getSuppressAllDiagnostics();
        diags.setSuppressAllDiagnostics(true);
        Instances v(em);
        v.TraverseDecl(m_ci.getASTContext().getTranslationUnitDecl());
        for (auto* m : v.todo) {
            s.InstantiateFunctionDefinition(m->getLocation(), m, true, false, true);
            s.PerformPendingInstantiations();
            const FunctionDecl* d = nullptr;
            if (m->isDefined(d) && !m->isInvalidDecl()) done.push_back(m);
        }
        diags.setSuppressAllDiagnostics(old);
    }

    void HandleTranslationUnit(ASTContext& ctx) override {
        if (ctx.getDiagnostics().hasErrorOccurred()) return;
        Emitter em(ctx, m_os);
        Roots roots(em);
        auto* tu = ctx.getTranslationUnitDecl();
        if (g_allHeaders) {
            for (auto* d : tu->decls()) {
                if (em.inRepo(d->getLocation()) || isa<NamespaceDecl>(d)) {
                    auto* ns = dyn_cast<NamespaceDecl>(d);
                    if (ns && ns->getName() != "powsybl") continue;
                    roots.TraverseDecl(d);
                }
            }
            std::vector<CXXMethodDecl*> done;
            instantiate(em, done);
            for (auto* m : done) em.wantFunction(m);
        } else {
            for (auto* d : tu->noload_decls()) {
                roots.TraverseDecl(d);
            }
            if (g_uses) {
                Uses uses(em);
                auto& sm = ctx.getSourceManager();
                for (auto* d : tu->noload_decls()) {
                    if (sm.isInMainFile(sm.getExpansionLoc(d->getLocation()))) uses.TraverseDecl(d);
                }
            }
        }
        em.drain();
    }
    CompilerInstance& m_ci;
    llvm::raw_ostream& m_os;
};

class Action : public ASTFrontendAction {
public:
    explicit Action(llvm::raw_ostream& os) : m_os(os) {}
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci, llvm::StringRef) override {
        ci.getDiagnostics().setSuppressAllDiagnostics(false);
        return std::make_unique<Consumer>(ci, m_os);
    }
    llvm::raw_ostream& m_os;
};
class Factory : public tooling::FrontendActionFactory {
public:
    explicit Factory(llvm::raw_ostream& os) : m_os(os) {}
    std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(m_os); }
    llvm::raw_ostream& m_os;
};

}  // namespace

// usage: extract ROOT MODE SRC OUT -- flags...      MODE: unit | headers
int main(int argc, const char** argv) {
    if (argc < 6) { llvm::errs() << "usage: extract ROOT unit|headers SRC OUT -- FLAGS\n"; return 2; }
    g_root = argv[1];
    if (g_root.back() != '/') g_root += '/';
    g_allHeaders = std::string(argv[2]) == "headers";
    g_uses = std::string(argv[2]) == "uses";
    std::string src = argv[3];
    std::string out = argv[4];
    std::vector<std::string> flags;
    for (int i = 6; i < argc; ++i) flags.push_back(argv[i]);
    std::error_code ec;
    llvm::raw_fd_ostream os(out, ec);
    if (ec) { llvm::errs() << "cannot write " << out << "\n"; return 2; }
    tooling::FixedCompilationDatabase db(g_root, flags);
    tooling::ClangTool tool(db, {src});
    tool.clearArgumentsAdjusters();
    tool.appendArgumentsAdjuster(tooling::getClangSyntaxOnlyAdjuster());
    Factory fac(os);
    int rc = tool.run(&fac);
    os << "{\"r\":\"end\",\"rc\":" << rc << "}\n";
    return rc;
}
