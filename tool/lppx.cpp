// lppx: fact extractor for LucenePlusPlus.  Parses translation units with the clang front end and writes,
// per translation unit, one JSON document with the resolved program: classes, fields, methods, overrides, and for
// every function definition in the repository a compact, fully name-resolved syntax tree.
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/Expr.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <set>
#include <string>
#include <vector>
#include <map>

using namespace clang;

static std::string RepoRoot;
static std::string OutDir;

static std::string apss(const llvm::APSInt& v) { llvm::SmallString<40> s; v.toString(s, 10); return std::string(s.str()); }

static std::string jesc(llvm::StringRef s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        switch (c) {
        case '"': o += "\\\""; break;
        case '\\': o += "\\\\"; break;
        case '\n': o += "\\n"; break;
        case '\t': o += "\\t"; break;
        case '\r': o += "\\r"; break;
        default:
            if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
            else o += (char)c;
        }
    }
    return o + "\"";
}

// strip template argument lists of names; keep spelling otherwise
static std::string qnOf(const NamedDecl* d) {
    std::vector<std::string> parts;
    std::string nm;
    if (auto* c = dyn_cast<CXXConstructorDecl>(d)) nm = c->getParent()->getNameAsString();
    else if (auto* c = dyn_cast<CXXDestructorDecl>(d)) nm = "~" + c->getParent()->getNameAsString();
    else if (auto* c = dyn_cast<CXXConversionDecl>(d)) { (void)c; nm = "operator-conv"; }
    else nm = d->getNameAsString();
    parts.push_back(nm);
    const DeclContext* dc = d->getDeclContext();
    while (dc && !dc->isTranslationUnit()) {
        if (auto* n = dyn_cast<NamedDecl>(dc)) {
            if (auto* ns = dyn_cast<NamespaceDecl>(n)) {
                if (!ns->isInline() && !ns->isAnonymousNamespace()) parts.push_back(ns->getNameAsString());
            } else if (isa<FunctionDecl>(n)) {
                parts.push_back(n->getNameAsString());
            } else parts.push_back(n->getNameAsString());
        }
        dc = dc->getParent();
    }
    std::string r;
    for (auto it = parts.rbegin(); it != parts.rend(); ++it) { if (!r.empty()) r += "::"; r += *it; }
    if (r.compare(0, 8, "Lucene::") == 0) r = r.substr(8);
    return r;
}

struct Ex {
    ASTContext& C;
    const SourceManager& SM;
    PrintingPolicy PP;
    std::map<const Decl*, std::string> ids;
    explicit Ex(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
        PP.SuppressTagKeyword = true; PP.Bool = true; PP.adjustForCPlusPlus();
    }

    unsigned line(SourceLocation l) { return SM.getExpansionLineNumber(SM.getExpansionLoc(l)); }
    std::string file(SourceLocation l) {
        auto e = SM.getExpansionLoc(l);
        auto f = SM.getFileEntryRefForID(SM.getFileID(e));
        if (!f) return "";
        std::string n = std::string(f->getFileEntry().tryGetRealPathName());
        if (n.empty()) n = std::string(f->getName());
        return n;
    }
    std::string rel(SourceLocation l) {
        std::string f = file(l);
        if (f.compare(0, RepoRoot.size(), RepoRoot) == 0) return f.substr(RepoRoot.size());
        return "";
    }
    bool inRepo(SourceLocation l) { return l.isValid() && !rel(l).empty(); }

    // ---- types ----------------------------------------------------------------------------------------------
    std::string ty(QualType q, int depth = 0) {
        if (q.isNull()) return "?";
        q = q.getCanonicalType();
        std::string suf;
        if (q->isReferenceType()) {
            QualType p = q->getPointeeType();
            bool cst = p.isConstQualified();
            return ty(p.getUnqualifiedType(), depth) + (q->isRValueReferenceType() ? "&&" : (cst ? "" : "&"));
        }
        if (q->isPointerType()) return ty(q->getPointeeType().getUnqualifiedType(), depth) + "*";
        q = q.getUnqualifiedType();
        if (auto* r = q->getAs<RecordType>()) {
            const RecordDecl* rd = r->getDecl();
            std::string n = qnOf(rd);
            if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(rd)) {
                const auto& A = sp->getTemplateArgs();
                auto arg = [&](unsigned i) -> std::string {
                    if (i < A.size() && A[i].getKind() == TemplateArgument::Type) return ty(A[i].getAsType(), depth + 1);
                    return "?";
                };
                if (n == "boost::shared_ptr") return "P<" + arg(0) + ">";
                if (n == "boost::weak_ptr") return "W<" + arg(0) + ">";
                if (n == "std::basic_string" || n == "std::__cxx11::basic_string") return arg(0) == "wchar_t" ? "String" : "SString";
                if (depth > 3) return n + "<..>";
                unsigned k = 0;
                for (unsigned i = 0; i < A.size(); ++i) if (A[i].getKind() == TemplateArgument::Type) ++k;
                unsigned lim = k;
                if (n == "HashMap" || n == "Map" || n == "WeakHashMap") lim = 2;
                if (n == "HashSet" || n == "Set" || n == "Collection" || n == "Array") lim = 1;
                if (n == "ExceptionTemplate") {
                    // name the exception by its kind enumerator
                    std::string p = arg(0), e = "?";
                    if (A.size() > 1 && A[1].getKind() == TemplateArgument::Integral) {
                        auto* et = A[1].getIntegralType()->getAs<EnumType>();
                        if (et) for (auto* ec : et->getDecl()->enumerators())
                            if (apss(ec->getInitVal()) == apss(A[1].getAsIntegral())) e = ec->getNameAsString();
                    }
                    return "X<" + e + "|" + p + ">";
                }
                std::string s = n + "<";
                for (unsigned i = 0; i < A.size() && i < lim; ++i) { if (i) s += ","; s += arg(i); }
                return s + ">";
            }
            return n;
        }
        if (auto* e = q->getAs<EnumType>()) return qnOf(e->getDecl());
        return q.getAsString(PP);
    }
    bool isShared(QualType q) { auto s = ty(q); return s.compare(0, 2, "P<") == 0; }
    bool isWeak(QualType q) { auto s = ty(q); return s.compare(0, 2, "W<") == 0; }
    bool isContainer(QualType q) {
        q = q.getCanonicalType().getUnqualifiedType();
        if (auto* rd = q->getAsCXXRecordDecl()) {
            std::string n = qnOf(rd);
            return n == "Array" || n == "Collection" || n == "HashSet" || n == "HashMap" || n == "Map" || n == "Set" || n == "WeakHashMap";
        }
        return false;
    }

    // ---- keys -----------------------------------------------------------------------------------------------
    std::string fkey(const FunctionDecl* f) {
        if (auto* p = f->getPrimaryTemplate()) { (void)p; }
        std::string k = qnOf(f) + "(";
        bool first = true;
        for (auto* p : f->parameters()) { if (!first) k += ","; first = false; k += ty(p->getType()); }
        k += ")";
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) if (m->isConst()) k += "c";
        return k;
    }
    std::string vid(const VarDecl* v) {
        auto it = ids.find(v);
        if (it != ids.end()) return it->second;
        std::string s = v->getNameAsString() + "@" + std::to_string(line(v->getLocation())) + ":" + std::to_string(SM.getExpansionColumnNumber(v->getLocation()));
        if (isa<ParmVarDecl>(v)) s = v->getNameAsString() + "@p" + std::to_string(cast<ParmVarDecl>(v)->getFunctionScopeIndex());
        ids[v] = s;
        return s;
    }

    // ---- expressions ----------------------------------------------------------------------------------------
    std::string L(const char* k, SourceLocation l) { return std::string("[\"") + k + "\"," + std::to_string(line(l)); }

    const Expr* strip(const Expr* e) {
        while (e) {
            if (auto* x = dyn_cast<ImplicitCastExpr>(e)) { e = x->getSubExpr(); continue; }
            if (auto* x = dyn_cast<ParenExpr>(e)) { e = x->getSubExpr(); continue; }
            if (auto* x = dyn_cast<ExprWithCleanups>(e)) { e = x->getSubExpr(); continue; }
            if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
            if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
            if (auto* x = dyn_cast<ConstantExpr>(e)) { e = x->getSubExpr(); continue; }
            if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { e = x->getReplacement(); continue; }
            if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) { e = x->getExpr(); continue; }
            if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) { e = x->getExpr(); continue; }
            break;
        }
        return e;
    }

    // integer conversions that drop the upper half of a 64-bit value
    unsigned width(QualType t) { return t->isIntegerType() && !t->isDependentType() && !t->isBooleanType() && !t->isEnumeralType() ? (unsigned)C.getTypeSize(t) : 0; }
    void narrow(const Stmt* s, std::string& out, const Expr* outer) {
        if (!s) return;
        const Expr* val = nullptr; QualType from, to; SourceLocation l = s->getBeginLoc();
        if (auto* x = dyn_cast<CastExpr>(s)) {
            if (x->getCastKind() == CK_IntegralCast) { val = x->getSubExpr(); from = val->getType(); to = x->getType(); }
        } else if (auto* x = dyn_cast<CompoundAssignOperator>(s)) {
            if (x->getOpcode() == BO_AddAssign || x->getOpcode() == BO_SubAssign) { val = x->getRHS(); from = x->getComputationResultType(); to = x->getLHS()->getType(); }
        }
        if (val && !val->isValueDependent() && width(from) == 64 && width(to) && width(to) <= 32) {
            Expr::EvalResult r;
            if (!val->EvaluateAsInt(r, C)) {
                if (!out.empty()) out += ",";
                out += "[" + std::to_string(line(l)) + "," + jesc(from.getUnqualifiedType().getAsString()) + "," + jesc(to.getUnqualifiedType().getAsString()) + "," + ex(val) + "]";
            }
        }
        for (auto* c : s->children()) narrow(c, out, nullptr);
    }
    // products and shifts computed in 32 bits and then used as 64-bit values
    const Expr* product(const Expr* e) {
        e = strip(e);
        auto* b = e ? dyn_cast<BinaryOperator>(e) : nullptr;
        if (!b || !width(b->getType()) || width(b->getType()) > 32) return nullptr;
        if (b->getOpcode() == BO_Mul || b->getOpcode() == BO_Shl) { Expr::EvalResult r; return b->isValueDependent() || b->EvaluateAsInt(r, C) ? nullptr : b; }
        if (b->getOpcode() == BO_Add || b->getOpcode() == BO_Sub) { auto* l = product(b->getLHS()); return l ? l : product(b->getRHS()); }
        return nullptr;
    }
    void widen(const Stmt* s, std::string& out) {
        if (!s) return;
        if (auto* x = dyn_cast<CastExpr>(s))
            if (x->getCastKind() == CK_IntegralCast && !x->isValueDependent() && width(x->getType()) == 64 && width(x->getSubExpr()->getType()) && width(x->getSubExpr()->getType()) <= 32)
                if (auto* p = product(x->getSubExpr())) {
                    if (!out.empty()) out += ",";
                    out += "[" + std::to_string(line(s->getBeginLoc())) + "," + jesc(p->getType().getUnqualifiedType().getAsString()) + "," + jesc(x->getType().getUnqualifiedType().getAsString()) + "," + ex(p) + "]";
                }
        for (auto* c : s->children()) widen(c, out);
    }

    std::string exArgs(llvm::ArrayRef<const Expr*> as) {
        std::string s = "["; bool f = true;
        for (auto* a : as) { if (!f) s += ","; f = false; s += ex(a); }
        return s + "]";
    }
    template <class It> std::string exArgsIt(It b, It e) {
        std::vector<const Expr*> v; for (; b != e; ++b) v.push_back(*b);
        return exArgs(v);
    }

    // the object expression of a member access, with smart/raw pointer dereference made explicit
    std::string base(const Expr* b, bool arrow) {
        const Expr* s = strip(b);
        if (auto* oc = dyn_cast<CXXOperatorCallExpr>(s))
            if (oc->getOperator() == OO_Arrow) return ex(s);   // ["arrow",..]
        if (arrow) {
            if (isa<CXXThisExpr>(s)) return L("this", s->getBeginLoc()) + "]";
            return L("parrow", s->getBeginLoc()) + "," + ex(s) + "]";
        }
        return ex(s);
    }

    std::string ctorExpr(const CXXConstructExpr* c) {
        QualType t = c->getType();
        auto* cd = c->getConstructor();
        unsigned n = 0; // explicit args
        for (auto* a : c->arguments()) if (!isa<CXXDefaultArgExpr>(a)) ++n;
        if (isShared(t) || isWeak(t)) {
            if (n == 0) return L("null", c->getBeginLoc()) + "]";
            if (n == 1) {
                const Expr* a = strip(c->getArg(0));
                if (isShared(t) && isWeak(a->getType())) return L("lockw", c->getBeginLoc()) + "," + ex(a) + "]";
                return ex(a);
            }
        }
        if (isContainer(t)) {
            if (n == 0) return L("null", c->getBeginLoc()) + "]";
            if (n == 1 && cd->isCopyOrMoveConstructor()) return ex(c->getArg(0));
        }
        if (n == 1 && cd->isCopyOrMoveConstructor()) return ex(c->getArg(0));
        if (n == 1 && ty(t) == "String" ) {
            const Expr* a = strip(c->getArg(0));
            if (isa<StringLiteral>(a)) return ex(a);
        }
        std::vector<const Expr*> v;
        for (auto* a : c->arguments()) v.push_back(a);
        return L("ctor", c->getBeginLoc()) + "," + jesc(ty(t)) + "," + jesc(fkey(cd)) + "," + exArgs(v) + "]";
    }

    std::string ex(const Expr* e0) {
        if (!e0) return "null";
        const Expr* e = strip(e0);
        SourceLocation l = e->getBeginLoc();
        if (auto* x = dyn_cast<CXXThisExpr>(e)) { (void)x; return L("this", l) + "]"; }
        if (auto* x = dyn_cast<IntegerLiteral>(e)) {
            llvm::SmallString<32> s; x->getValue().toString(s, 10, x->getType()->isSignedIntegerType());
            return L("int", l) + "," + std::string(s.str()) + "]";
        }
        if (auto* x = dyn_cast<CharacterLiteral>(e)) return L("int", l) + "," + std::to_string(x->getValue()) + "]";
        if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) return L("bool", l) + (x->getValue() ? ",true]" : ",false]");
        if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) return L("null", l) + "]";
        if (auto* x = dyn_cast<FloatingLiteral>(e)) {
            llvm::SmallString<32> s; x->getValue().toString(s); return L("float", l) + "," + jesc(s) + "]";
        }
        if (auto* x = dyn_cast<StringLiteral>(e)) {
            std::string s;
            for (unsigned i = 0; i < x->getLength(); ++i) { uint32_t c = x->getCodeUnit(i); if (c < 128) s += (char)c; else s += "\\u" + std::to_string(c); }
            return L("str", l) + "," + jesc(s) + "]";
        }
        if (auto* x = dyn_cast<DeclRefExpr>(e)) {
            const ValueDecl* d = x->getDecl();
            if (auto* v = dyn_cast<VarDecl>(d)) {
                if (v->isLocalVarDeclOrParm() && !v->isStaticLocal()) return L("var", l) + "," + jesc(vid(v)) + "," + jesc(ty(v->getType())) + "]";
                return L("gvar", l) + "," + jesc(qnOf(v)) + "," + jesc(ty(v->getType())) + "]";
            }
            if (auto* ec = dyn_cast<EnumConstantDecl>(d)) return L("enum", l) + "," + jesc(qnOf(ec)) + "," + apss(ec->getInitVal()) + "]";
            if (auto* f = dyn_cast<FunctionDecl>(d)) return L("fref", l) + "," + jesc(fkey(f)) + "]";
            return L("ref", l) + "," + jesc(qnOf(d)) + "]";
        }
        if (auto* x = dyn_cast<MemberExpr>(e)) {
            const ValueDecl* d = x->getMemberDecl();
            if (auto* fd = dyn_cast<FieldDecl>(d)) return L("field", l) + "," + base(x->getBase(), x->isArrow()) + "," + jesc(qnOf(fd)) + "," + jesc(ty(fd->getType())) + "]";
            if (auto* v = dyn_cast<VarDecl>(d)) return L("gvar", l) + "," + jesc(qnOf(v)) + "," + jesc(ty(v->getType())) + "]";
            if (auto* f = dyn_cast<FunctionDecl>(d)) return L("fref", l) + "," + jesc(fkey(f)) + "]";
            if (auto* ec = dyn_cast<EnumConstantDecl>(d)) return L("enum", l) + "," + jesc(qnOf(ec)) + "," + apss(ec->getInitVal()) + "]";
            return L("ref", l) + "," + jesc(qnOf(d)) + "]";
        }
        if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
            auto op = x->getOperator();
            const char* sp = getOperatorSpelling(op);
            if (op == OO_Arrow) {
                return L("arrow", l) + "," + ex(x->getArg(0)) + "]";
            }
            if (op == OO_Star && x->getNumArgs() == 1) return L("star", l) + "," + ex(x->getArg(0)) + "," + jesc(ty(strip(x->getArg(0))->getType())) + "]";
            if (op == OO_Subscript) return L("idx", l) + "," + ex(x->getArg(0)) + "," + ex(x->getArg(1)) + "," + jesc(ty(strip(x->getArg(0))->getType())) + "]";
            if (x->isAssignmentOp()) return L("asg", l) + "," + jesc(sp) + "," + ex(x->getArg(0)) + "," + ex(x->getArg(1)) + "]";
            if (op == OO_Call) {
                std::vector<const Expr*> v; for (unsigned i = 1; i < x->getNumArgs(); ++i) v.push_back(x->getArg(i));
                std::string k = x->getDirectCallee() ? fkey(x->getDirectCallee()) : "?()";
                return L("call", l) + "," + jesc(k) + "," + ex(x->getArg(0)) + "," + exArgs(v) + ",\"\"," + jesc(ty(strip(x->getArg(0))->getType())) + "]";
            }
            if ((op == OO_PlusPlus || op == OO_MinusMinus)) return L("un", l) + "," + jesc(std::string(x->getNumArgs() == 2 ? "post" : "pre") + sp) + "," + ex(x->getArg(0)) + "]";
            if (x->getNumArgs() == 1) return L("un", l) + "," + jesc(sp) + "," + ex(x->getArg(0)) + "]";
            return L("bin", l) + "," + jesc(sp) + "," + ex(x->getArg(0)) + "," + ex(x->getArg(1)) + "]";
        }
        if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
            auto* m = x->getMethodDecl();
            const MemberExpr* me = dyn_cast<MemberExpr>(strip(x->getCallee()));
            if (!m || !me) return L("unk", l) + ",\"membercall\"," + exArgsIt(x->arg_begin(), x->arg_end()) + "]";
            if (isa<CXXConversionDecl>(m)) return ex(me->getBase()); // shared_ptr -> bool, container -> bool
            std::string cls = qnOf(m->getParent());
            std::string mn = m->getNameAsString();
            bool virt = m->isVirtual() && !me->hasQualifier();
            std::string fl = virt ? "v" : "";
            std::string bt = ty(strip(me->getBase())->getType());
            // the static class of the object expression (the pointee for smart pointers)
            const Expr* b = strip(me->getBase());
            if (auto* oc = dyn_cast<CXXOperatorCallExpr>(b)) if (oc->getOperator() == OO_Arrow) bt = ty(strip(oc->getArg(0))->getType());
            return L("call", l) + "," + jesc(fkey(m)) + "," + base(me->getBase(), me->isArrow()) + "," + exArgsIt(x->arg_begin(), x->arg_end()) + "," + jesc(fl) + "," + jesc(bt) + "]";
        }
        if (auto* x = dyn_cast<CallExpr>(e)) {
            const FunctionDecl* f = x->getDirectCallee();
            if (!f) return L("call", l) + ",\"?()\"," + ex(x->getCallee()) + "," + exArgsIt(x->arg_begin(), x->arg_end()) + ",\"\",\"\"]";
            std::string n = qnOf(f);
            auto tArg = [&](unsigned i) -> std::string {
                if (auto* ta = f->getTemplateSpecializationArgs()) if (i < ta->size() && (*ta)[i].getKind() == TemplateArgument::Type) return ty((*ta)[i].getAsType());
                return "?";
            };
            if (n == "newLucene" || n == "newInstance") return L("new", l) + "," + jesc(tArg(0)) + "," + exArgsIt(x->arg_begin(), x->arg_end()) + "," + jesc(n) + "]";
            if (n == "boost::throw_exception" || n == "boost::throw_exception_") {
                const Expr* a = strip(x->getArg(0));
                return L("throw", l) + "," + jesc(ty(a->getType())) + "," + ex(a) + "]";
            }
            if (n == "boost::dynamic_pointer_cast" || n == "boost::static_pointer_cast" || n == "boost::const_pointer_cast")
                return L("dpc", l) + "," + jesc(tArg(0)) + "," + ex(x->getArg(0)) + "," + jesc(n == "boost::dynamic_pointer_cast" ? "dynamic" : "static") + "]";
            // template arguments of helper templates are kept in the flags slot
            std::string fl;
            if (f->getPrimaryTemplate()) fl = "t:" + tArg(0);
            return L("call", l) + "," + jesc(fkey(f)) + ",null," + exArgsIt(x->arg_begin(), x->arg_end()) + "," + jesc(fl) + ",\"\"]";
        }
        if (auto* x = dyn_cast<CXXTemporaryObjectExpr>(e)) return ctorExpr(x);
        if (auto* x = dyn_cast<CXXConstructExpr>(e)) return ctorExpr(x);
        if (auto* x = dyn_cast<CXXScalarValueInitExpr>(e)) { (void)x; return L("int", l) + ",0]"; }
        if (auto* x = dyn_cast<ImplicitValueInitExpr>(e)) { (void)x; return L("int", l) + ",0]"; }
        if (auto* x = dyn_cast<CXXNewExpr>(e)) {
            std::string a = "[]";
            if (auto* c = x->getConstructExpr()) a = exArgsIt(c->arg_begin(), c->arg_end());
            return L("new", l) + "," + jesc(ty(x->getAllocatedType())) + "," + a + ",\"new\"]";
        }
        if (auto* x = dyn_cast<CXXDeleteExpr>(e)) return L("delete", l) + "," + ex(x->getArgument()) + "]";
        if (auto* x = dyn_cast<UnaryOperator>(e)) {
            std::string op = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
            if (x->isIncrementDecrementOp()) op = (x->isPrefix() ? "pre" : "post") + op;
            if (x->getOpcode() == UO_Deref) return L("star", l) + "," + ex(x->getSubExpr()) + "," + jesc(ty(x->getSubExpr()->getType())) + "]";
            return L("un", l) + "," + jesc(op) + "," + ex(x->getSubExpr()) + "]";
        }
        if (auto* x = dyn_cast<BinaryOperator>(e)) {
            std::string op = x->getOpcodeStr().str();
            if (x->isAssignmentOp()) return L("asg", l) + "," + jesc(op) + "," + ex(x->getLHS()) + "," + ex(x->getRHS()) + "]";
            return L("bin", l) + "," + jesc(op) + "," + ex(x->getLHS()) + "," + ex(x->getRHS()) + "]";
        }
        if (auto* x = dyn_cast<ConditionalOperator>(e)) return L("cond", l) + "," + ex(x->getCond()) + "," + ex(x->getTrueExpr()) + "," + ex(x->getFalseExpr()) + "]";
        if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) return L("idx", l) + "," + ex(x->getBase()) + "," + ex(x->getIdx()) + "," + jesc(ty(strip(x->getBase())->getType())) + "]";
        if (auto* x = dyn_cast<CXXThrowExpr>(e)) {
            if (!x->getSubExpr()) return L("rethrow", l) + "]";
            const Expr* a = strip(x->getSubExpr());
            return L("throw", l) + "," + jesc(ty(a->getType())) + "," + ex(a) + "]";
        }
        if (auto* x = dyn_cast<CXXFunctionalCastExpr>(e)) {
            const Expr* s = strip(x->getSubExpr());
            if (isa<CXXConstructExpr>(s) && ty(s->getType()) == ty(x->getType())) return ex(s);
            return L("cast", l) + "," + jesc(ty(x->getType())) + "," + ex(s) + "]";
        }
        if (auto* x = dyn_cast<ExplicitCastExpr>(e)) return L("cast", l) + "," + jesc(ty(x->getType())) + "," + ex(x->getSubExpr()) + "]";
        if (auto* x = dyn_cast<InitListExpr>(e)) { std::vector<const Expr*> v; for (auto* i : x->inits()) v.push_back(i); return L("ilist", l) + "," + exArgs(v) + "," + jesc(ty(x->getType())) + "]"; }
        if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) return ex(x->getSubExpr());
        if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
            Expr::EvalResult r; if (!x->isValueDependent() && x->EvaluateAsInt(r, C)) return L("int", l) + "," + apss(r.Val.getInt()) + "]";
        }
        if (auto* x = dyn_cast<LambdaExpr>(e)) return L("lambda", l) + "," + st(x->getBody()) + "]";
        if (auto* x = dyn_cast<OpaqueValueExpr>(e)) if (x->getSourceExpr()) return ex(x->getSourceExpr());
        std::string s = L("unk", l) + "," + jesc(e->getStmtClassName()) + ",[";
        bool f = true;
        for (const Stmt* c : e->children()) if (auto* ce = dyn_cast_or_null<Expr>(c)) { if (!f) s += ","; f = false; s += ex(ce); }
        return s + "]]";
    }

    // ---- statements -----------------------------------------------------------------------------------------
    std::string declS(const VarDecl* v) {
        std::string s = L("decl", v->getLocation()) + "," + jesc(vid(v)) + "," + jesc(ty(v->getType())) + ",";
        s += v->getInit() ? ex(v->getInit()) : std::string("null");
        s += v->isStaticLocal() ? "," + jesc("static:" + qnOf(v)) : (v->getType()->isReferenceType() ? ",\"ref\"" : ",\"\"");
        return s + "]";
    }
    std::string st(const Stmt* s) {
        if (!s) return "null";
        SourceLocation l = s->getBeginLoc();
        if (auto* x = dyn_cast<CompoundStmt>(s)) {
            std::string r = L("block", l) + ",["; bool f = true;
            for (auto* c : x->body()) { std::string t = st(c); if (t == "null") continue; if (!f) r += ","; f = false; r += t; }
            return r + "]," + std::to_string(line(x->getRBracLoc())) + "]";
        }
        if (auto* x = dyn_cast<DeclStmt>(s)) {
            std::string r; int n = 0;
            for (auto* d : x->decls()) if (auto* v = dyn_cast<VarDecl>(d)) { if (n++) r += ","; r += declS(v); }
            if (n == 0) return "null";
            if (n == 1) return r;
            return L("decls", l) + ",[" + r + "]]";
        }
        if (isa<NullStmt>(s)) return "null";
        if (auto* x = dyn_cast<IfStmt>(s)) {
            std::string c = ex(x->getCond());
            std::string r = L("if", l) + "," + c + "," + st(x->getThen()) + "," + st(x->getElse()) + "]";
            std::string pre;
            if (x->getInit()) pre += st(x->getInit()) + ",";
            if (auto* v = x->getConditionVariable()) pre += declS(v) + ",";
            if (!pre.empty()) return L("block", l) + ",[" + pre + r + "]," + std::to_string(line(s->getEndLoc())) + "]";
            return r;
        }
        if (auto* x = dyn_cast<WhileStmt>(s)) {
            std::string v = x->getConditionVariable() ? declS(x->getConditionVariable()) : std::string("null");
            return L("while", l) + "," + ex(x->getCond()) + "," + st(x->getBody()) + "," + v + "]";
        }
        if (auto* x = dyn_cast<DoStmt>(s)) return L("do", l) + "," + st(x->getBody()) + "," + ex(x->getCond()) + "]";
        if (auto* x = dyn_cast<ForStmt>(s)) return L("for", l) + "," + st(x->getInit()) + "," + (x->getCond() ? ex(x->getCond()) : std::string("null")) + "," + (x->getInc() ? ex(x->getInc()) : std::string("null")) + "," + st(x->getBody()) + "]";
        if (auto* x = dyn_cast<CXXForRangeStmt>(s)) return L("rfor", l) + "," + declS(x->getLoopVariable()) + "," + ex(x->getRangeInit()) + "," + st(x->getBody()) + "]";
        if (auto* x = dyn_cast<ReturnStmt>(s)) return L("ret", l) + "," + (x->getRetValue() ? ex(x->getRetValue()) : std::string("null")) + "]";
        if (isa<BreakStmt>(s)) return L("break", l) + "]";
        if (isa<ContinueStmt>(s)) return L("cont", l) + "]";
        if (auto* x = dyn_cast<SwitchStmt>(s)) return L("switch", l) + "," + ex(x->getCond()) + "," + st(x->getBody()) + "]";
        if (auto* x = dyn_cast<CaseStmt>(s)) return L("case", l) + "," + ex(x->getLHS()) + "," + st(x->getSubStmt()) + "]";
        if (auto* x = dyn_cast<DefaultStmt>(s)) return L("default", l) + "," + st(x->getSubStmt()) + "]";
        if (auto* x = dyn_cast<CXXTryStmt>(s)) {
            std::string r = L("try", l) + "," + st(x->getTryBlock()) + ",[";
            for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
                auto* h = x->getHandler(i);
                if (i) r += ",";
                auto* v = h->getExceptionDecl();
                r += "[" + std::to_string(line(h->getBeginLoc())) + "," + (v ? jesc(ty(h->getCaughtType())) : std::string("\"...\"")) + "," + (v && v->getIdentifier() ? jesc(vid(v)) : std::string("null")) + "," + st(h->getHandlerBlock()) + "]";
            }
            return r + "]]";
        }
        if (auto* x = dyn_cast<LabelStmt>(s)) return L("label", l) + "," + jesc(x->getName()) + "," + st(x->getSubStmt()) + "]";
        if (auto* x = dyn_cast<GotoStmt>(s)) return L("goto", l) + "," + jesc(x->getLabel()->getName()) + "]";
        if (auto* x = dyn_cast<AttributedStmt>(s)) return st(x->getSubStmt());
        if (auto* x = dyn_cast<Expr>(s)) return L("expr", l) + "," + ex(x) + "]";
        return L("sunk", l) + "," + jesc(s->getStmtClassName()) + "]";
    }

    // ---- declarations ---------------------------------------------------------------------------------------
    static const char* acc(AccessSpecifier a) { return a == AS_public ? "public" : a == AS_protected ? "protected" : a == AS_private ? "private" : "none"; }

    std::string overridden(const CXXMethodDecl* m) {
        std::string s = "["; bool f = true;
        for (auto* o : m->overridden_methods()) { if (!f) s += ","; f = false; s += jesc(fkey(o)); }
        return s + "]";
    }
    std::string fn(const FunctionDecl* f) {
        std::string s = "{\"key\":" + jesc(fkey(f)) + ",\"qn\":" + jesc(qnOf(f));
        auto* m = dyn_cast<CXXMethodDecl>(f);
        s += ",\"cls\":" + (m ? jesc(qnOf(m->getParent())) : std::string("null"));
        s += ",\"name\":" + jesc(isa<CXXConstructorDecl>(f) ? std::string("<ctor>") : isa<CXXDestructorDecl>(f) ? std::string("<dtor>") : f->getNameAsString());
        s += ",\"file\":" + jesc(rel(f->getLocation())) + ",\"line\":" + std::to_string(line(f->getLocation())) + ",\"end\":" + std::to_string(line(f->getEndLoc()));
        s += ",\"params\":["; bool first = true;
        for (auto* p : f->parameters()) { if (!first) s += ","; first = false; s += "[" + jesc(vid(p)) + "," + jesc(ty(p->getType())) + "," + (p->getType()->isReferenceType() && !p->getType()->getPointeeType().isConstQualified() ? "1" : "0") + "]"; }
        s += "],\"ret\":" + jesc(ty(f->getReturnType()));
        s += std::string(",\"kind\":") + (isa<CXXConstructorDecl>(f) ? "\"ctor\"" : isa<CXXDestructorDecl>(f) ? "\"dtor\"" : m ? "\"method\"" : "\"func\"");
        if (m) {
            s += std::string(",\"virt\":") + (m->isVirtual() ? "1" : "0") + ",\"static\":" + (m->isStatic() ? "1" : "0") + ",\"acc\":\"" + acc(m->getAccess()) + "\",\"over\":" + overridden(m);
        }
        if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
            s += ",\"inits\":["; bool g = true;
            for (auto* i : c->inits()) {
                if (!i->isWritten() && !(i->isMemberInitializer() && i->getInit())) continue;
                if (!g) s += ","; g = false;
                if (i->isAnyMemberInitializer()) s += "[\"m\"," + jesc(qnOf(i->getAnyMember())) + "," + ex(i->getInit()) + "," + (i->isWritten() ? "1" : "0") + "]";
                else if (i->isBaseInitializer()) s += "[\"b\"," + jesc(ty(QualType(i->getBaseClass(), 0))) + "," + ex(i->getInit()) + ",1]";
                else s += "[\"d\",\"\"," + ex(i->getInit()) + ",1]";
            }
            s += "]";
        }
        std::string nar;
        if (f->getBody()) narrow(f->getBody(), nar, nullptr);
        if (auto* c = dyn_cast<CXXConstructorDecl>(f))
            for (auto* i : c->inits()) if (i->getInit()) narrow(i->getInit(), nar, nullptr);
        std::string wid;
        if (f->getBody()) widen(f->getBody(), wid);
        if (auto* c = dyn_cast<CXXConstructorDecl>(f))
            for (auto* i : c->inits()) if (i->getInit()) widen(i->getInit(), wid);
        if (!wid.empty()) s += ",\"widen\":[" + wid + "]";
        if (!nar.empty()) s += ",\"narrow\":[" + nar + "]";
        s += ",\"body\":" + (f->getBody() ? st(f->getBody()) : std::string("null"));
        return s + "}";
    }
    std::string cls(const CXXRecordDecl* r) {
        std::string s = "{\"name\":" + jesc(qnOf(r)) + ",\"file\":" + jesc(rel(r->getLocation())) + ",\"line\":" + std::to_string(line(r->getLocation()));
        s += std::string(",\"abstract\":") + (r->isDependentContext() ? "0" : (r->isAbstract() ? "1" : "0"));
        s += std::string(",\"template\":") + (r->isDependentContext() ? "1" : "0");
        s += ",\"bases\":["; bool f = true;
        for (auto& b : r->bases()) { if (!f) s += ","; f = false; 
            std::string bn = ty(b.getType()); s += jesc(bn); }
        s += "],\"fields\":["; f = true;
        for (auto* d : r->decls()) {
            if (auto* fd = dyn_cast<FieldDecl>(d)) { if (!f) s += ","; f = false; s += "[" + jesc(fd->getNameAsString()) + "," + jesc(ty(fd->getType())) + "," + std::to_string(line(fd->getLocation())) + ",\"" + acc(fd->getAccess()) + "\"," + (fd->hasInClassInitializer() ? "1" : "0") + ",0]"; }
            else if (auto* v = dyn_cast<VarDecl>(d)) { if (!f) s += ","; f = false; s += "[" + jesc(v->getNameAsString()) + "," + jesc(ty(v->getType())) + "," + std::to_string(line(v->getLocation())) + ",\"" + acc(v->getAccess()) + "\"," + (v->hasInit() ? "1" : "0") + "," + (v->getType().isConstQualified() ? "2" : "1") + "]"; }
        }
        s += "],\"methods\":["; f = true;
        for (auto* d : r->decls()) {
            const CXXMethodDecl* m = dyn_cast<CXXMethodDecl>(d);
            if (!m || m->isImplicit()) continue;
            if (!f) s += ","; f = false;
            s += "[" + jesc(fkey(m)) + "," + jesc(isa<CXXConstructorDecl>(m) ? std::string("<ctor>") : isa<CXXDestructorDecl>(m) ? std::string("<dtor>") : m->getNameAsString()) + ",\"" + acc(m->getAccess()) + "\"," + (m->isVirtual() ? "1" : "0") + "," + (m->isPureVirtual() ? "1" : "0") + "," + (m->isStatic() ? "1" : "0") + "," + overridden(m) + "," + std::to_string(m->getMinRequiredArguments()) + "," + std::to_string(m->getNumParams()) + "]";
        }
        return s + "]}";
    }
};

struct V : RecursiveASTVisitor<V> {
    Ex& X; bool all; FileID mainId; const SourceManager& SM;
    std::vector<std::string> fns, classes, gvars, enums;
    std::set<std::string> seen;
    V(Ex& x, bool a) : X(x), all(a), mainId(x.SM.getMainFileID()), SM(x.SM) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool want(SourceLocation l) {
        if (l.isInvalid()) return false;
        if (all) return X.inRepo(l);
        return SM.getFileID(SM.getExpansionLoc(l)) == mainId;
    }
    bool VisitFunctionDecl(FunctionDecl* f) {
        if (!f->doesThisDeclarationHaveABody() || f->isImplicit() || f->isDependentContext()) return true;
        bool inst = f->isTemplateInstantiation();
        if (!want(f->getLocation()) && !(inst && X.inRepo(f->getLocation()))) return true;
        if (inst) {
            std::string q = qnOf(f);
            std::string top = q.substr(0, q.find("::"));
            static const std::set<std::string> skip = {"Array", "ArrayData", "Collection", "HashSet", "HashMap", "Map", "Set", "WeakHashMap", "newLucene", "newInstance", "luceneEquals", "luceneHash", "luceneCompare", "luceneWeakHash", "luceneWeakEquals", "luceneEqualTo", "ExceptionTemplate", "SyncLock"};
            if (skip.count(top) || skip.count(q)) return true;
        }
        std::string k = X.fkey(f);
        if (!seen.insert(k).second) return true;
        fns.push_back(X.fn(f));
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* r) {
        if (!r->isThisDeclarationADefinition() || r->isImplicit() || r->isLambda()) return true;
        if (!want(r->getLocation())) return true;
        if (isa<ClassTemplateSpecializationDecl>(r)) return true;
        classes.push_back(X.cls(r));
        return true;
    }
    bool VisitVarDecl(VarDecl* v) {
        if (!v->isFileVarDecl() && !v->isStaticDataMember() && !v->isStaticLocal()) return true;
        if (v->getDeclContext()->isDependentContext()) return true;
        if (!want(v->getLocation())) return true;
        const Expr* in = v->getInit();
        std::string s = "[" + jesc(qnOf(v)) + "," + jesc(X.ty(v->getType())) + "," + jesc(X.rel(v->getLocation())) + "," + std::to_string(X.line(v->getLocation())) + "," + (in ? X.ex(in) : std::string("null")) + "," + (v->getType().isConstQualified() ? "1" : "0") + "," + (v->isThisDeclarationADefinition() ? "1" : "0");
        std::string val = "null";
        if (in && !in->isValueDependent() && v->getType()->isIntegralOrEnumerationType()) {
            Expr::EvalResult r; if (in->EvaluateAsInt(r, X.C)) val = apss(r.Val.getInt());
        }
        gvars.push_back(s + "," + val + "," + (v->isStaticLocal() ? "1" : "0") + "]");
        return true;
    }
    bool VisitEnumDecl(EnumDecl* e) {
        if (!e->isThisDeclarationADefinition() || !want(e->getLocation())) return true;
        std::string s = "[" + jesc(qnOf(e)) + ",["; bool f = true;
        for (auto* c : e->enumerators()) { if (!f) s += ","; f = false; s += "[" + jesc(c->getNameAsString()) + "," + apss(c->getInitVal()) + "]"; }
        enums.push_back(s + "]," + jesc(X.rel(e->getLocation())) + "," + std::to_string(X.line(e->getLocation())) + "]");
        return true;
    }
};

static bool AllMode = false;

struct Cons : ASTConsumer {
    std::string out;
    explicit Cons(std::string o) : out(std::move(o)) {}
    std::vector<Decl*> tops;
    bool HandleTopLevelDecl(DeclGroupRef g) override { for (auto* d : g) tops.push_back(d); return true; }
    void HandleTopLevelDeclInObjCContainer(DeclGroupRef) override {}
    void HandleTranslationUnit(ASTContext& c) override {
        Ex x(c);
        V v(x, AllMode);
        // class-template instantiations used in this unit are reached through their (header) pattern
        for (auto* d : tops) if (d && x.inRepo(d->getLocation())) v.TraverseDecl(d);
        // instantiated member functions of repository class templates
        auto join = [](std::vector<std::string>& v) { std::string s; for (auto& i : v) { if (!s.empty()) s += ",\n"; s += i; } return s; };
        std::ofstream o(out);
        o << "{\"errors\":" << (c.getDiagnostics().hasErrorOccurred() ? 1 : 0) << ",\"functions\":[" << join(v.fns) << "],\n\"classes\":[" << join(v.classes) << "],\n\"gvars\":[" << join(v.gvars) << "],\n\"enums\":[" << join(v.enums) << "]}\n";
    }
};

struct Act : ASTFrontendAction {
    std::string out;
    explicit Act(std::string o) : out(std::move(o)) {}
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override { return std::make_unique<Cons>(out); }
};

struct Fac : tooling::FrontendActionFactory {
    std::string out;
    std::unique_ptr<FrontendAction> create() override { return std::make_unique<Act>(out); }
};

// usage: lppx REPOROOT [--all] LIST -- flags        LIST: lines "source<TAB>output"
int main(int argc, char** argv) {
    if (argc < 4) { llvm::errs() << "usage: lppx REPO [--all] LIST -- flags\n"; return 2; }
    RepoRoot = argv[1];
    if (RepoRoot.back() != '/') RepoRoot += '/';
    int i = 2;
    if (std::string(argv[i]) == "--all") { AllMode = true; ++i; }
    std::ifstream list(argv[i++]);
    std::vector<std::string> flags;
    if (i < argc && std::string(argv[i]) == "--") ++i;
    for (; i < argc; ++i) flags.push_back(argv[i]);
    std::string ln; int rc = 0;
    while (std::getline(list, ln)) {
        auto t = ln.find('\t');
        if (t == std::string::npos) continue;
        std::string src = ln.substr(0, t), out = ln.substr(t + 1);
        tooling::FixedCompilationDatabase db(".", flags);
        tooling::ClangTool tool(db, {src});
        tool.clearArgumentsAdjusters();
        tool.appendArgumentsAdjuster(tooling::getClangSyntaxOnlyAdjuster());
        Fac f; f.out = out + ".tmp";
        if (tool.run(&f) != 0) { llvm::errs() << "PARSE-ERROR " << src << "\n"; rc = 1; remove((out + ".tmp").c_str()); continue; }
        rename((out + ".tmp").c_str(), out.c_str());
    }
    return rc;
}
