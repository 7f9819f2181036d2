// capyver front end: mechanically dumps the typed AST of every function with a
// body located under one of the given source prefixes, as JSON (one document per TU).
// Nothing is rewritten: every node comes from clang's semantic AST (overloads resolved,
// implicit conversions explicit, templates instantiated).
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/ExprConcepts.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> prefixes;
static std::string outPath;

namespace {

int64_t i64(const llvm::APSInt &v) { return (int64_t)v.extOrTrunc(64).getZExtValue(); }

struct Dumper {
    ASTContext &C;
    SourceManager &SM;
    PrintingPolicy PP;
    std::map<std::string, int> typeIdx;
    json::Array types;
    std::map<const Decl *, int> declIds;
    std::vector<const FunctionDecl *> queue;
    std::set<const FunctionDecl *> seen;
    std::set<const CXXRecordDecl *> recSeen;
    json::Object records, enums;
    json::Array functions;
    json::Object globals;
    ASTNameGenerator NG;

    explicit Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()), NG(c) {
        PP.SuppressTagKeyword = true;
        PP.SuppressUnwrittenScope = true;
        PP.AnonymousTagLocations = true;
    }

    bool inScope(SourceLocation L) {
        if(L.isInvalid())
            return false;
        L = SM.getExpansionLoc(L);
        auto F = SM.getFilename(L);
        if(F.empty())
            return false;
        std::string f = F.str();
        llvm::SmallString<256> real(f);
        SM.getFileManager().makeAbsolutePath(real);
        llvm::sys::path::remove_dots(real, true);
        for(auto &p : prefixes)
            if(real.str().starts_with(p))
                return true;
        return false;
    }
    int line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
    std::string file(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        llvm::SmallString<256> real(SM.getFilename(L));
        SM.getFileManager().makeAbsolutePath(real);
        llvm::sys::path::remove_dots(real, true);
        return real.str().str();
    }
    int did(const Decl *D) {
        D = D->getCanonicalDecl();
        auto it = declIds.find(D);
        if(it != declIds.end())
            return it->second;
        int n = declIds.size() + 1;
        declIds[D] = n;
        return n;
    }
    std::string qn(const NamedDecl *D) {
        std::string s;
        llvm::raw_string_ostream os(s);
        D->printQualifiedName(os, PP);
        return s;
    }
    static std::string strip(std::string s) {
        return s;
    }

    json::Value targ(const TemplateArgument &A) {
        switch(A.getKind()) {
        case TemplateArgument::Type:
            return type(A.getAsType());
        case TemplateArgument::Integral:
            return json::Object{{"k", "const"}, {"v", i64(A.getAsIntegral())}};
        case TemplateArgument::Pack: {
            json::Array a;
            for(auto &x : A.pack_elements())
                a.push_back(targ(x));
            return json::Object{{"k", "pack"}, {"a", std::move(a)}};
        }
        default:
            return json::Object{{"k", "other"}};
        }
    }

    int type(QualType T) {
        if(T.isNull())
            return addType("null", json::Object{{"k", "null"}});
        T = T.getCanonicalType();
        std::string key = T.getAsString(PP);
        if(auto *RT = T->getAs<RecordType>()) {
            // disambiguate lambdas / anon by id
            auto *RD = RT->getDecl();
            if(auto *CR = dyn_cast<CXXRecordDecl>(RD))
                if(CR->isLambda() || !RD->getDeclName())
                    key += "#" + std::to_string(did(RD));
        }
        if(T->isPointerType() || T->isReferenceType()) {
            // pointees may be lambdas as well
            key += "@" + std::to_string(type(T->getPointeeType()));
        }
        auto it = typeIdx.find(key);
        if(it != typeIdx.end())
            return it->second;
        // reserve
        int n = types.size();
        typeIdx[key] = n;
        types.push_back(nullptr);
        json::Object o;
        bool cq = T.isConstQualified();
        T = T.getUnqualifiedType();
        if(cq)
            o["c"] = true;
        if(auto *BT = T->getAs<BuiltinType>()) {
            if(BT->getKind() == BuiltinType::Bool)
                o["k"] = "bool";
            else if(BT->isInteger()) {
                o["k"] = "int";
                o["w"] = (int)C.getTypeSize(T);
                o["s"] = BT->isSignedInteger();
                o["n"] = T.getAsString(PP);
            } else if(BT->isFloatingPoint()) {
                o["k"] = "float";
                o["w"] = (int)C.getTypeSize(T);
            } else if(BT->isVoidType())
                o["k"] = "void";
            else if(BT->isNullPtrType())
                o["k"] = "nullptr";
            else
                o["k"] = "builtin", o["n"] = T.getAsString(PP);
        } else if(T->isPointerType()) {
            o["k"] = "ptr";
            o["t"] = type(T->getPointeeType());
        } else if(T->isReferenceType()) {
            o["k"] = "ref";
            o["rv"] = T->isRValueReferenceType();
            o["t"] = type(T->getPointeeType());
        } else if(auto *ET = T->getAs<EnumType>()) {
            o["k"] = "enum";
            o["n"] = qn(ET->getDecl());
            auto it2 = ET->getDecl()->getIntegerType();
            if(!it2.isNull()) {
                o["w"] = (int)C.getTypeSize(it2);
                o["s"] = it2->isSignedIntegerType();
            } else {
                o["w"] = 32;
                o["s"] = true;
            }
            dumpEnum(ET->getDecl());
        } else if(auto *RT = T->getAs<RecordType>()) {
            o["k"] = "rec";
            auto *RD = RT->getDecl();
            o["n"] = qn(RD);
            o["id"] = did(RD);
            if(auto *CR = dyn_cast<CXXRecordDecl>(RD)) {
                if(CR->isLambda())
                    o["lambda"] = did(CR);
            }
            if(auto *TS = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
                json::Array a;
                for(auto &A : TS->getTemplateArgs().asArray())
                    a.push_back(targ(A));
                o["a"] = std::move(a);
            }
            if(RD->isCompleteDefinition() && !RD->isInvalidDecl() && !RD->isDependentType()) {
                o["sz"] = (int64_t)C.getTypeSizeInChars(T).getQuantity();
            }
            o["key"] = key;
            dumpRecord(RD, key);
        } else if(auto *AT = C.getAsConstantArrayType(T)) {
            o["k"] = "arr";
            o["t"] = type(AT->getElementType());
            o["cnt"] = (int64_t)AT->getSize().getZExtValue();
        } else if(auto *FT = T->getAs<FunctionProtoType>()) {
            o["k"] = "fn";
            json::Array a;
            for(auto p : FT->param_types())
                a.push_back(type(p));
            o["p"] = std::move(a);
            o["r"] = type(FT->getReturnType());
        } else {
            o["k"] = "other";
            o["n"] = T.getAsString(PP);
        }
        types[n] = std::move(o);
        return n;
    }
    int addType(const std::string &key, json::Object o) {
        auto it = typeIdx.find(key);
        if(it != typeIdx.end())
            return it->second;
        int n = types.size();
        typeIdx[key] = n;
        types.push_back(std::move(o));
        return n;
    }

    void dumpEnum(const EnumDecl *E) {
        std::string n = qn(E);
        if(enums.get(n))
            return;
        if(auto *D = E->getDefinition())
            E = D;
        json::Object vals;
        json::Object out;
        for(auto *e : E->enumerators())
            vals[e->getNameAsString()] = i64(e->getInitVal());
        out["values"] = std::move(vals);
        out["file"] = file(E->getLocation());
        enums[n] = std::move(out);
    }

    bool stdish(const Decl *D) { return !inScope(D->getLocation()); }

    void dumpRecord(const RecordDecl *R, const std::string &key) {
        auto *CR = dyn_cast<CXXRecordDecl>(R);
        if(!CR || !CR->hasDefinition())
            return;
        CR = CR->getDefinition();
        if(recSeen.count(CR))
            return;
        recSeen.insert(CR);
        if(CR->isDependentType())
            return;
        bool outside = stdish(CR) && !CR->isLambda();
        // outside types: dump only plain aggregates of C libraries (FreeType, zlib)
        if(outside) {
            std::string q = qn(CR);
            if(q.rfind("std::", 0) == 0 || q.rfind("__gnu", 0) == 0)
                return;
        }
        json::Object o;
        o["name"] = qn(CR);
        o["id"] = did(CR);
        o["outside"] = outside;
        o["union"] = CR->isUnion();
        json::Array bases;
        for(auto &b : CR->bases())
            bases.push_back(type(b.getType()));
        o["bases"] = std::move(bases);
        json::Array fields;
        for(auto *f : CR->fields()) {
            json::Object fo;
            fo["name"] = f->getNameAsString();
            fo["t"] = type(f->getType());
            if(!outside && f->hasInClassInitializer() && f->getInClassInitializer())
                fo["init"] = expr(f->getInClassInitializer());
            if(!CR->isInvalidDecl() && !f->isBitField() && !CR->isLambda())
                fo["off"] = (int64_t)(C.getFieldOffset(f) / 8);
            fields.push_back(std::move(fo));
        }
        o["fields"] = std::move(fields);
        if(CR->isLambda()) {
            json::Array caps;
            for(auto &c : CR->captures()) {
                json::Object co;
                if(c.capturesThis())
                    co["this"] = true, co["copy"] = c.getCaptureKind() == LCK_StarThis;
                else if(c.capturesVariable()) {
                    co["var"] = did(c.getCapturedVar());
                    co["name"] = c.getCapturedVar()->getNameAsString();
                    co["copy"] = c.getCaptureKind() == LCK_ByCopy;
                }
                caps.push_back(std::move(co));
            }
            o["captures"] = std::move(caps);
            o["lambda"] = true;
            json::Array ops;
            if(auto *ft = CR->getDependentLambdaCallOperator()) {
                for(auto *s : ft->specializations()) {
                    ops.push_back(did(s));
                    enqueue(s);
                }
            } else if(auto *m = CR->getLambdaCallOperator()) {
                ops.push_back(did(m));
                enqueue(m);
            }
            o["ops"] = std::move(ops);
        }
        json::Array methods;
        if(!outside) {
            for(auto *m : CR->methods()) {
                if(m->isImplicit() && !CR->isLambda())
                    continue;
                methods.push_back(json::Object{{"n", m->getNameAsString()},
                                               {"id", did(m)},
                                               {"static", m->isStatic()},
                                               {"virt", m->isVirtual()},
                                               {"dflt", m->isDefaulted()},
                                               {"del", m->isDeleted()},
                                               {"pub", m->getAccess() == AS_public}});
            }
            if(auto *d = CR->getDestructor())
                if(!d->isImplicit() && !d->isDefaulted())
                    o["dtor"] = did(d), enqueue(d);
        }
        o["methods"] = std::move(methods);
        records[key] = std::move(o);
    }

    void enqueue(const FunctionDecl *F) {
        if(!F)
            return;
        F = F->getCanonicalDecl();
        if(seen.insert(F).second)
            queue.push_back(F);
    }

    json::Value loc(const Stmt *S) { return line(S->getBeginLoc()); }

    static bool nothrow(const FunctionDecl *F) {
        if(isa<CXXDestructorDecl>(F) || F->isExternC())
            return true;
        if(auto *M = dyn_cast<CXXMethodDecl>(F))
            if(M->isTrivial())
                return true;
        auto *P = F->getType()->getAs<FunctionProtoType>();
        if(!P)
            return false;
        auto e = P->getExceptionSpecType();
        if(e == EST_Unevaluated || e == EST_Uninstantiated || e == EST_Unparsed || e == EST_DependentNoexcept)
            return false;
        return P->isNothrow();
    }

    json::Object fnref(const FunctionDecl *F) {
        json::Object o;
        o["n"] = qn(F);
        o["id"] = did(F);
        if(auto *M = dyn_cast<CXXMethodDecl>(F)) {
            o["m"] = true;
            o["cls"] = type(C.getRecordType(M->getParent()));
            if(M->isStatic())
                o["static"] = true;
        }
        if(auto *TA = F->getTemplateSpecializationArgs()) {
            json::Array a;
            for(auto &A : TA->asArray())
                a.push_back(targ(A));
            o["ta"] = std::move(a);
        }
        if(F->isNoReturn())
            o["noret"] = true;
        if(nothrow(F))
            o["nothrow"] = true;
        if(inScope(F->getLocation()) && !F->isDependentContext())
            o["mn"] = NG.getName(F);
        json::Array pt;
        for(auto *p : F->parameters())
            pt.push_back(type(p->getType()));
        o["pt"] = std::move(pt);
        o["rt"] = type(F->getReturnType());
        enqueue(F);
        return o;
    }

    json::Value stmtOrNull(const Stmt *S) {
        if(!S)
            return nullptr;
        return stmt(S);
    }
    json::Value exprOrNull(const Expr *S) {
        if(!S)
            return nullptr;
        return expr(S);
    }

    json::Object varDecl(const VarDecl *V) {
        json::Object o;
        o["id"] = did(V);
        o["name"] = V->getNameAsString();
        o["t"] = type(V->getType());
        if(V->isStaticLocal() || V->hasGlobalStorage())
            o["static"] = true;
        if(V->getInit())
            o["init"] = expr(V->getInit());
        if(auto *DD = dyn_cast<DecompositionDecl>(V)) {
            json::Array b;
            for(auto *bd : DD->bindings()) {
                json::Object bo;
                bo["id"] = did(bd);
                bo["name"] = bd->getNameAsString();
                bo["t"] = type(bd->getType());
                if(bd->getHoldingVar()) {
                    bo["hold"] = varDecl(bd->getHoldingVar());
                } else if(bd->getBinding())
                    bo["e"] = expr(bd->getBinding());
                b.push_back(std::move(bo));
            }
            o["bind"] = std::move(b);
        }
        return o;
    }

    json::Value stmt(const Stmt *S) {
        json::Object o;
        o["l"] = loc(S);
        if(auto *E = dyn_cast<Expr>(S)) {
            o["s"] = "expr";
            o["e"] = expr(E);
            return o;
        }
        switch(S->getStmtClass()) {
        case Stmt::CompoundStmtClass: {
            o["s"] = "block";
            json::Array a;
            for(auto *c : cast<CompoundStmt>(S)->body())
                a.push_back(stmt(c));
            o["b"] = std::move(a);
            break;
        }
        case Stmt::DeclStmtClass: {
            o["s"] = "decl";
            json::Array a;
            for(auto *d : cast<DeclStmt>(S)->decls())
                if(auto *V = dyn_cast<VarDecl>(d))
                    a.push_back(varDecl(V));
            o["d"] = std::move(a);
            break;
        }
        case Stmt::IfStmtClass: {
            auto *I = cast<IfStmt>(S);
            o["s"] = "if";
            if(I->isConstexpr()) {
                if(auto taken = I->getNondiscardedCase(C)) {
                    json::Array a;
                    if(I->getInit())
                        a.push_back(stmt(I->getInit()));
                    if(*taken)
                        a.push_back(stmt(*taken));
                    o["s"] = "block";
                    o["b"] = std::move(a);
                    break;
                }
            }
            o["init"] = stmtOrNull(I->getInit());
            if(I->getConditionVariable())
                o["cv"] = varDecl(I->getConditionVariable());
            o["c"] = expr(I->getCond());
            o["t"] = stmt(I->getThen());
            o["f"] = stmtOrNull(I->getElse());
            break;
        }
        case Stmt::ForStmtClass: {
            auto *I = cast<ForStmt>(S);
            o["s"] = "for";
            o["init"] = stmtOrNull(I->getInit());
            o["c"] = exprOrNull(I->getCond());
            o["inc"] = exprOrNull(I->getInc());
            o["b"] = stmt(I->getBody());
            break;
        }
        case Stmt::WhileStmtClass: {
            auto *I = cast<WhileStmt>(S);
            o["s"] = "while";
            if(I->getConditionVariable())
                o["cv"] = varDecl(I->getConditionVariable());
            o["c"] = expr(I->getCond());
            o["b"] = stmt(I->getBody());
            break;
        }
        case Stmt::DoStmtClass: {
            auto *I = cast<DoStmt>(S);
            o["s"] = "do";
            o["c"] = expr(I->getCond());
            o["b"] = stmt(I->getBody());
            break;
        }
        case Stmt::CXXForRangeStmtClass: {
            auto *I = cast<CXXForRangeStmt>(S);
            o["s"] = "rfor";
            o["init"] = stmtOrNull(I->getInit());
            o["range"] = expr(I->getRangeInit());
            o["rt"] = type(I->getRangeInit()->getType());
            o["var"] = varDecl(I->getLoopVariable());
            // classification of begin/end for user iterators
            if(I->getBeginStmt())
                o["begin"] = stmt(I->getBeginStmt());
            if(I->getEndStmt())
                o["end"] = stmt(I->getEndStmt());
            if(I->getRangeStmt())
                o["rangestmt"] = stmt(I->getRangeStmt());
            if(I->getCond())
                o["c"] = expr(I->getCond());
            if(I->getInc())
                o["inc"] = expr(I->getInc());
            o["b"] = stmt(I->getBody());
            break;
        }
        case Stmt::SwitchStmtClass: {
            auto *I = cast<SwitchStmt>(S);
            o["s"] = "switch";
            o["init"] = stmtOrNull(I->getInit());
            if(I->getConditionVariable())
                o["cv"] = varDecl(I->getConditionVariable());
            o["c"] = expr(I->getCond());
            o["b"] = stmt(I->getBody());
            break;
        }
        case Stmt::CaseStmtClass: {
            auto *I = cast<CaseStmt>(S);
            o["s"] = "case";
            Expr::EvalResult R;
            if(I->getLHS()->EvaluateAsInt(R, C))
                o["v"] = i64(R.Val.getInt());
            if(I->getRHS() && I->getRHS()->EvaluateAsInt(R, C))
                o["v2"] = i64(R.Val.getInt());
            o["b"] = stmtOrNull(I->getSubStmt());
            break;
        }
        case Stmt::DefaultStmtClass:
            o["s"] = "default";
            o["b"] = stmtOrNull(cast<DefaultStmt>(S)->getSubStmt());
            break;
        case Stmt::BreakStmtClass:
            o["s"] = "break";
            break;
        case Stmt::ContinueStmtClass:
            o["s"] = "continue";
            break;
        case Stmt::ReturnStmtClass:
            o["s"] = "return";
            o["e"] = exprOrNull(cast<ReturnStmt>(S)->getRetValue());
            break;
        case Stmt::NullStmtClass:
            o["s"] = "null";
            break;
        case Stmt::AttributedStmtClass:
            return stmt(cast<AttributedStmt>(S)->getSubStmt());
        case Stmt::CXXTryStmtClass: {
            auto *T = cast<CXXTryStmt>(S);
            o["s"] = "try";
            o["b"] = stmt(T->getTryBlock());
            json::Array hs;
            for(unsigned i = 0; i < T->getNumHandlers(); ++i) {
                auto *H = T->getHandler(i);
                json::Object ho;
                if(H->getExceptionDecl())
                    ho["var"] = varDecl(H->getExceptionDecl());
                else
                    ho["all"] = true;
                ho["b"] = stmt(H->getHandlerBlock());
                hs.push_back(std::move(ho));
            }
            o["h"] = std::move(hs);
            break;
        }
        default:
            o["s"] = "unknown";
            o["cls"] = S->getStmtClassName();
        }
        return o;
    }

    json::Object E(const char *k, const Expr *X) {
        json::Object o;
        o["e"] = k;
        o["t"] = type(X->getType());
        o["l"] = line(X->getBeginLoc());
        if(X->isLValue())
            o["lv"] = true;
        else if(X->isXValue())
            o["xv"] = true;
        return o;
    }
    json::Array args(llvm::iterator_range<CallExpr::const_arg_iterator> r) {
        json::Array a;
        for(auto *x : r)
            a.push_back(expr(x));
        return a;
    }

    bool constInt(const Expr *X, int64_t &out) {
        if(X->isValueDependent() || X->isTypeDependent())
            return false;
        if(!X->getType()->isIntegralOrEnumerationType())
            return false;
        Expr::EvalResult R;
        if(!X->isPRValue())
            return false;
        if(X->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
            out = i64(R.Val.getInt());
            return true;
        }
        return false;
    }

    json::Value expr(const Expr *X) {
        // transparent wrappers
        while(true) {
            if(auto *p = dyn_cast<ParenExpr>(X))
                X = p->getSubExpr();
            else if(auto *p = dyn_cast<ExprWithCleanups>(X))
                X = p->getSubExpr();
            else if(auto *p = dyn_cast<CXXBindTemporaryExpr>(X))
                X = p->getSubExpr();
            else if(auto *p = dyn_cast<ConstantExpr>(X))
                X = p->getSubExpr();
            else if(auto *p = dyn_cast<SubstNonTypeTemplateParmExpr>(X))
                X = p->getReplacement();
            else if(auto *p = dyn_cast<CXXDefaultArgExpr>(X))
                X = p->getExpr();
            else if(auto *p = dyn_cast<CXXDefaultInitExpr>(X))
                X = p->getExpr();
            else
                break;
        }
        if(X->isTypeDependent() || X->isValueDependent()) {
            return E("dependent", X);
        }
        int64_t cv;
        if(!isa<CXXBoolLiteralExpr>(X) && !isa<InitListExpr>(X) && constInt(X, cv)) {
            auto o = E("const", X);
            o["v"] = cv;
            return o;
        }
        switch(X->getStmtClass()) {
        case Stmt::MaterializeTemporaryExprClass: {
            auto o = E("temp", X);
            o["x"] = expr(cast<MaterializeTemporaryExpr>(X)->getSubExpr());
            return o;
        }
        case Stmt::IntegerLiteralClass: {
            auto o = E("const", X);
            o["v"] = (int64_t)cast<IntegerLiteral>(X)->getValue().getZExtValue();
            return o;
        }
        case Stmt::CharacterLiteralClass: {
            auto o = E("const", X);
            o["v"] = (int64_t)cast<CharacterLiteral>(X)->getValue();
            return o;
        }
        case Stmt::CXXBoolLiteralExprClass: {
            auto o = E("const", X);
            o["v"] = (int64_t)cast<CXXBoolLiteralExpr>(X)->getValue();
            return o;
        }
        case Stmt::FloatingLiteralClass: {
            auto o = E("fconst", X);
            o["v"] = cast<FloatingLiteral>(X)->getValueAsApproximateDouble();
            return o;
        }
        case Stmt::StringLiteralClass: {
            auto o = E("str", X);
            auto *s = cast<StringLiteral>(X);
            json::Array a;
            if(s->getCharByteWidth() == 1)
                for(unsigned char ch : s->getBytes())
                    a.push_back((int)ch);
            else
                for(unsigned i = 0; i < s->getLength(); ++i)
                    a.push_back((int64_t)s->getCodeUnit(i));
            o["b"] = std::move(a);
            return o;
        }
        case Stmt::PredefinedExprClass: {
            auto o = E("predef", X);
            return o;
        }
        case Stmt::CXXNullPtrLiteralExprClass:
        case Stmt::GNUNullExprClass:
            return E("null", X);
        case Stmt::CXXThisExprClass:
            return E("this", X);
        case Stmt::DeclRefExprClass: {
            auto *D = cast<DeclRefExpr>(X)->getDecl();
            if(auto *F = dyn_cast<FunctionDecl>(D)) {
                auto o = E("fn", X);
                o["f"] = fnref(F);
                return o;
            }
            if(auto *EC = dyn_cast<EnumConstantDecl>(D)) {
                auto o = E("const", X);
                o["v"] = i64(EC->getInitVal());
                return o;
            }
            auto o = E("var", X);
            o["id"] = did(D);
            o["n"] = D->getNameAsString();
            if(auto *BD = dyn_cast<BindingDecl>(D)) {
                if(BD->getHoldingVar())
                    o["id"] = did(BD->getHoldingVar());
                else {
                    o["bind"] = true;
                    if(BD->getBinding())
                        return expr(BD->getBinding());
                }
            }
            if(auto *V = dyn_cast<VarDecl>(D)) {
                if(V->hasGlobalStorage()) {
                    o["global"] = qn(V);
                    dumpGlobal(V);
                }
            }
            return o;
        }
        case Stmt::MemberExprClass: {
            auto *M = cast<MemberExpr>(X);
            if(auto *F = dyn_cast<CXXMethodDecl>(M->getMemberDecl())) {
                auto o = E("mfn", X);
                o["x"] = expr(M->getBase());
                o["arrow"] = M->isArrow();
                o["f"] = fnref(F);
                return o;
            }
            if(auto *V = dyn_cast<VarDecl>(M->getMemberDecl())) {
                auto o = E("var", X);
                o["id"] = did(V);
                o["n"] = V->getNameAsString();
                o["global"] = qn(V);
                dumpGlobal(V);
                return o;
            }
            auto o = E("mem", X);
            o["x"] = expr(M->getBase());
            o["arrow"] = M->isArrow();
            o["f"] = M->getMemberDecl()->getNameAsString();
            if(auto *FD = dyn_cast<FieldDecl>(M->getMemberDecl()))
                o["cls"] = type(C.getRecordType(FD->getParent()));
            return o;
        }
        case Stmt::CXXMemberCallExprClass: {
            auto *M = cast<CXXMemberCallExpr>(X);
            auto o = E("mcall", X);
            o["obj"] = expr(M->getImplicitObjectArgument());
            if(auto *ME = dyn_cast<MemberExpr>(M->getCallee()->IgnoreParens()))
                o["arrow"] = ME->isArrow();
            if(M->getMethodDecl())
                o["f"] = fnref(M->getMethodDecl());
            o["a"] = args(M->arguments());
            return o;
        }
        case Stmt::CXXOperatorCallExprClass: {
            auto *M = cast<CXXOperatorCallExpr>(X);
            auto o = E("opcall", X);
            o["op"] = getOperatorSpelling(M->getOperator());
            if(M->getDirectCallee())
                o["f"] = fnref(M->getDirectCallee());
            o["a"] = args(M->arguments());
            return o;
        }
        case Stmt::UserDefinedLiteralClass:
        case Stmt::CallExprClass: {
            auto *M = cast<CallExpr>(X);
            auto o = E("call", X);
            if(M->getDirectCallee())
                o["f"] = fnref(M->getDirectCallee());
            else
                o["callee"] = expr(M->getCallee());
            o["a"] = args(M->arguments());
            return o;
        }
        case Stmt::CXXTemporaryObjectExprClass:
        case Stmt::CXXConstructExprClass: {
            auto *M = cast<CXXConstructExpr>(X);
            auto o = E("ctor", X);
            o["f"] = fnref(M->getConstructor());
            auto *CD = M->getConstructor();
            o["copy"] = CD->isCopyConstructor();
            o["move"] = CD->isMoveConstructor();
            o["dflt"] = CD->isDefaulted() || CD->isImplicit();
            o["zero"] = M->requiresZeroInitialization();
            json::Array a;
            for(auto *x : M->arguments())
                a.push_back(expr(x));
            o["a"] = std::move(a);
            return o;
        }
        case Stmt::CXXInheritedCtorInitExprClass: {
            auto o = E("unsupported", X);
            o["cls"] = X->getStmtClassName();
            return o;
        }
        case Stmt::CXXParenListInitExprClass: {
            auto *I = cast<CXXParenListInitExpr>(X);
            auto o = E("init", X);
            json::Array a;
            for(auto *x : I->getInitExprs())
                a.push_back(expr(x));
            o["a"] = std::move(a);
            return o;
        }
        case Stmt::InitListExprClass: {
            auto *I = cast<InitListExpr>(X);
            if(I->isSemanticForm() == false && I->getSemanticForm())
                I = I->getSemanticForm();
            auto o = E("init", X);
            json::Array a;
            for(unsigned i = 0; i < I->getNumInits(); ++i)
                a.push_back(expr(I->getInit(i)));
            o["a"] = std::move(a);
            if(I->hasArrayFiller())
                o["filler"] = true;
            return o;
        }
        case Stmt::ImplicitValueInitExprClass:
        case Stmt::CXXScalarValueInitExprClass:
            return E("zero", X);
        case Stmt::CXXStdInitializerListExprClass: {
            auto o = E("ilist", X);
            o["x"] = expr(cast<CXXStdInitializerListExpr>(X)->getSubExpr());
            return o;
        }
        case Stmt::ImplicitCastExprClass:
        case Stmt::CStyleCastExprClass:
        case Stmt::CXXFunctionalCastExprClass:
        case Stmt::CXXStaticCastExprClass:
        case Stmt::CXXConstCastExprClass:
        case Stmt::CXXReinterpretCastExprClass:
        case Stmt::BuiltinBitCastExprClass: {
            auto *K = cast<CastExpr>(X);
            auto o = E("cast", X);
            o["ck"] = K->getCastKindName();
            o["x"] = expr(K->getSubExpr());
            return o;
        }
        case Stmt::CXXDynamicCastExprClass: {
            auto o = E("unsupported", X);
            o["cls"] = "dynamic_cast";
            return o;
        }
        case Stmt::UnaryOperatorClass: {
            auto *U = cast<UnaryOperator>(X);
            auto o = E("un", X);
            o["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
            o["post"] = U->isPostfix();
            o["x"] = expr(U->getSubExpr());
            return o;
        }
        case Stmt::BinaryOperatorClass: {
            auto *B = cast<BinaryOperator>(X);
            auto o = E("bin", X);
            o["op"] = B->getOpcodeStr().str();
            o["x"] = expr(B->getLHS());
            o["y"] = expr(B->getRHS());
            return o;
        }
        case Stmt::CompoundAssignOperatorClass: {
            auto *B = cast<CompoundAssignOperator>(X);
            auto o = E("cassign", X);
            o["op"] = B->getOpcodeStr().str();
            o["ct"] = type(B->getComputationResultType());
            o["clt"] = type(B->getComputationLHSType());
            o["x"] = expr(B->getLHS());
            o["y"] = expr(B->getRHS());
            return o;
        }
        case Stmt::CXXRewrittenBinaryOperatorClass: {
            auto *R = cast<CXXRewrittenBinaryOperator>(X);
            auto D = R->getDecomposedForm();
            auto o = E("rewritten", X);
            o["op"] = BinaryOperator::getOpcodeStr(D.Opcode).str();
            o["x"] = expr(D.LHS);
            o["y"] = expr(D.RHS);
            return o;
        }
        case Stmt::ConditionalOperatorClass: {
            auto *B = cast<ConditionalOperator>(X);
            auto o = E("cond", X);
            o["c"] = expr(B->getCond());
            o["x"] = expr(B->getTrueExpr());
            o["y"] = expr(B->getFalseExpr());
            return o;
        }
        case Stmt::ArraySubscriptExprClass: {
            auto *B = cast<ArraySubscriptExpr>(X);
            auto o = E("idx", X);
            o["x"] = expr(B->getBase());
            o["y"] = expr(B->getIdx());
            return o;
        }
        case Stmt::LambdaExprClass: {
            auto *L = cast<LambdaExpr>(X);
            auto o = E("lambda", X);
            json::Array inits;
            for(auto it = L->capture_init_begin(); it != L->capture_init_end(); ++it)
                inits.push_back(exprOrNull(*it));
            o["inits"] = std::move(inits);
            type(X->getType());
            return o;
        }
        case Stmt::CXXNewExprClass: {
            auto *N = cast<CXXNewExpr>(X);
            auto o = E("new", X);
            o["at"] = type(N->getAllocatedType());
            o["init"] = exprOrNull(N->getInitializer());
            if(N->isArray())
                o["arr"] = true;
            return o;
        }
        case Stmt::CXXDeleteExprClass: {
            auto *N = cast<CXXDeleteExpr>(X);
            auto o = E("delete", X);
            o["x"] = expr(N->getArgument());
            return o;
        }
        case Stmt::CXXThrowExprClass: {
            auto o = E("throw", X);
            o["x"] = exprOrNull(cast<CXXThrowExpr>(X)->getSubExpr());
            return o;
        }
        case Stmt::StmtExprClass: {
            auto o = E("stmtexpr", X);
            o["b"] = stmt(cast<StmtExpr>(X)->getSubStmt());
            return o;
        }
        case Stmt::OpaqueValueExprClass: {
            auto *O = cast<OpaqueValueExpr>(X);
            if(O->getSourceExpr())
                return expr(O->getSourceExpr());
            return E("unsupported", X);
        }
        default: {
            auto o = E("unsupported", X);
            o["cls"] = X->getStmtClassName();
            return o;
        }
        }
    }

    void dumpGlobal(const VarDecl *V) {
        std::string n = qn(V);
        if(globals.get(n))
            return;
        globals[n] = nullptr;
        json::Object o;
        o["t"] = type(V->getType());
        o["inscope"] = inScope(V->getLocation());
        if(inScope(V->getLocation())) {
            if(auto *I = V->getAnyInitializer())
                if(!I->isValueDependent())
                    o["init"] = expr(I);
            o["file"] = file(V->getLocation());
        }
        globals[n] = std::move(o);
    }

    void dumpFunction(const FunctionDecl *F0) {
        const FunctionDecl *F = nullptr;
        if(!F0->hasBody(F) || !F)
            return;
        if(F->isDependentContext() || F->isInvalidDecl())
            return;
        auto *Body = F->getBody();
        auto *CD = dyn_cast<CXXConstructorDecl>(F);
        if(!Body)
            return;
        if(!inScope(F->getLocation()))
            return;
        json::Object o;
        o["n"] = qn(F);
        o["id"] = did(F);
        o["mn"] = NG.getName(F);
        o["file"] = file(F->getLocation());
        o["line"] = line(F->getBeginLoc());
        o["endline"] = line(F->getEndLoc());
        o["ret"] = type(F->getReturnType());
        if(auto *TA = F->getTemplateSpecializationArgs()) {
            json::Array a;
            for(auto &A : TA->asArray())
                a.push_back(targ(A));
            o["ta"] = std::move(a);
        }
        json::Array ps;
        for(auto *p : F->parameters()) {
            json::Object po;
            po["id"] = did(p);
            po["name"] = p->getNameAsString();
            po["t"] = type(p->getType());
            ps.push_back(std::move(po));
        }
        o["params"] = std::move(ps);
        if(auto *M = dyn_cast<CXXMethodDecl>(F)) {
            o["cls"] = type(C.getRecordType(M->getParent()));
            o["static"] = M->isStatic();
            o["const"] = M->isConst();
            o["pub"] = M->getAccess() == AS_public;
        }
        if(auto *P = F->getType()->getAs<FunctionProtoType>())
            o["noexcept"] = P->isNothrow();
        o["implicit"] = F->isImplicit() || F->isDefaulted();
        o["linkage"] = F->isExternallyVisible();
        o["externc"] = F->isExternC();
        o["noret"] = F->isNoReturn();
        if(CD) {
            o["isctor"] = true;
            json::Array in;
            for(auto *I : CD->inits()) {
                json::Object io;
                if(I->isAnyMemberInitializer())
                    io["f"] = I->getAnyMember()->getNameAsString();
                else if(I->isBaseInitializer())
                    io["base"] = type(QualType(I->getBaseClass(), 0));
                else
                    io["delegating"] = true;
                io["written"] = I->isWritten();
                if(I->getInit())
                    io["e"] = expr(I->getInit());
                in.push_back(std::move(io));
            }
            o["inits"] = std::move(in);
        }
        o["body"] = stmt(Body);
        functions.push_back(std::move(o));
    }
};

struct Finder : RecursiveASTVisitor<Finder> {
    Dumper &D;
    explicit Finder(Dumper &d) : D(d) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool VisitFunctionDecl(FunctionDecl *F) {
        if(D.inScope(F->getLocation()) && F->isThisDeclarationADefinition() &&
           !F->isDependentContext())
            D.enqueue(F);
        return true;
    }
    bool VisitVarDecl(VarDecl *V) {
        // constant tables that are defined in this unit and used from others
        if(V->isFileVarDecl() && D.inScope(V->getLocation()) && V->isThisDeclarationADefinition() == VarDecl::Definition &&
           !V->getDeclContext()->isDependentContext() && V->getType().isConstQualified() && V->hasExternalFormalLinkage())
            D.dumpGlobal(V);
        return true;
    }
    bool VisitEnumDecl(EnumDecl *E) {
        if(D.inScope(E->getLocation()))
            D.dumpEnum(E);
        return true;
    }
};

struct Consumer : ASTConsumer {
    void HandleTranslationUnit(ASTContext &C) override {
        Dumper D(C);
        Finder(D).TraverseDecl(C.getTranslationUnitDecl());
        for(size_t i = 0; i < D.queue.size(); ++i)
            D.dumpFunction(D.queue[i]);
        json::Object out;
        out["types"] = std::move(D.types);
        out["records"] = std::move(D.records);
        out["enums"] = std::move(D.enums);
        out["functions"] = std::move(D.functions);
        out["globals"] = std::move(D.globals);
        std::error_code ec;
        llvm::raw_fd_ostream os(outPath, ec);
        os << json::Value(std::move(out));
    }
};
struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
        return std::make_unique<Consumer>();
    }
};
} // namespace

// usage: astdump OUT.json FILE PREFIX[,PREFIX] -- clang-args...
int main(int argc, char **argv) {
    if(argc < 5)
        return 2;
    outPath = argv[1];
    std::string f = argv[2];
    llvm::SmallVector<llvm::StringRef> ps;
    llvm::StringRef(argv[3]).split(ps, ',');
    for(auto p : ps)
        prefixes.push_back(p.str());
    std::vector<std::string> a;
    for(int i = 5; i < argc; ++i)
        a.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", a);
    tooling::ClangTool tool(db, {f});
    tool.appendArgumentsAdjuster(tooling::getClangSyntaxOnlyAdjuster());
    return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
