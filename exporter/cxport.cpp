// cxport: exports the fully resolved clang AST of the functions of /repo (bodies, records, vtables)
// as compact JSON.  Nothing is rewritten: every node is the node clang builds for the code that runs.
// What is dropped: parentheses, attributes, source ranges other than line numbers.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/ExprCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Sema/Sema.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <deque>
#include <fstream>
using namespace clang;
namespace json = llvm::json;

static std::string g_root, g_out;

struct Exporter {
    ASTContext &C;
    std::unique_ptr<MangleContext> MC;
    std::map<const void*, int> varIds; int nextVar = 1;
    std::map<std::string, int> typeIds; json::Array types;
    std::map<std::string, bool> fnDone; std::deque<const FunctionDecl*> work; std::set<const FunctionDecl*> queued;
    std::map<const FunctionDecl*, std::string> fnIds; int nextLocal = 1;
    std::map<std::string, bool> recDone;
    json::Object functions, records; json::Array globals;
    std::set<const VarDecl*> globDone;
    std::string tu;
    PrintingPolicy PP;
    Exporter(ASTContext &C, std::string tu) : C(C), MC(C.createMangleContext()), tu(tu), PP(C.getLangOpts()) {
        PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true; PP.SuppressInlineNamespace = true; PP.Bool = true;
        PP.SuppressDefaultTemplateArgs = true;
        PP.AnonymousTagLocations = true;
    }
    bool inRepo(SourceLocation L) {
        if (L.isInvalid()) return false;
        auto &SM = C.getSourceManager();
        auto F = SM.getFilename(SM.getExpansionLoc(L));
        return F.starts_with(g_root) || F.contains("/specs/inst/");
    }
    std::string loc(SourceLocation L) {
        auto &SM = C.getSourceManager();
        auto E = SM.getExpansionLoc(L);
        return (SM.getFilename(E) + ":" + llvm::Twine(SM.getExpansionLineNumber(E))).str();
    }
    int line(SourceLocation L) { auto &SM = C.getSourceManager(); return SM.getExpansionLineNumber(SM.getExpansionLoc(L)); }

    std::string recName(const RecordDecl *R) {
        if (auto *RD = dyn_cast<CXXRecordDecl>(R)) if (RD->isLambda()) {
            return "lambda@" + loc(RD->getLocation()) + "#" + std::to_string((uint64_t)varId(RD->getCanonicalDecl()));
        }
        return C.getRecordType(R).getCanonicalType().getUnqualifiedType().getAsString(PP);
    }
    int varId(const void *p) { auto it = varIds.find(p); if (it != varIds.end()) return it->second; return varIds[p] = nextVar++; }

    int ty(QualType Q) {
        if (Q.isNull()) return -1;
        QualType T = Q.getCanonicalType();
        std::string key = T.getAsString(PP);
        if (auto *R = T->getAsCXXRecordDecl()) if (R->isLambda()) key = (T.isConstQualified() ? "const " : "") + recName(R);
        // lambdas nested in pointers/references need unique keys too
        { QualType U = T; std::string suffix; while (U->isPointerType() || U->isReferenceType()) { suffix += U->isPointerType() ? "*" : U->isRValueReferenceType() ? "&&" : "&"; U = U->getPointeeType(); }
          if (!suffix.empty()) if (auto *R = U->getAsCXXRecordDecl()) if (R->isLambda()) key = (U.isConstQualified() ? "const " : "") + recName(R) + suffix; }
        auto it = typeIds.find(key);
        if (it != typeIds.end()) return it->second;
        int id = types.size(); typeIds[key] = id; types.push_back(nullptr);
        json::Object o; o["s"] = key;
        if (T.isConstQualified()) o["const"] = true;
        if (auto *B = dyn_cast<BuiltinType>(T.getTypePtr())) {
            if (B->getKind() == BuiltinType::Bool) o["k"] = "bool";
            else if (B->isInteger()) { o["k"] = "int"; o["w"] = (int64_t)C.getTypeSize(T); o["sg"] = B->isSignedInteger(); }
            else if (B->isFloatingPoint()) { o["k"] = "float"; o["w"] = (int64_t)C.getTypeSize(T); }
            else if (B->isVoidType()) o["k"] = "void";
            else if (B->isNullPtrType()) o["k"] = "nullptr";
            else o["k"] = "builtin";
        } else if (auto *E = dyn_cast<EnumType>(T.getTypePtr())) {
            o["k"] = "int"; o["enum"] = true; o["w"] = (int64_t)C.getTypeSize(T); o["sg"] = E->getDecl()->getIntegerType().isNull() ? true : E->getDecl()->getIntegerType()->isSignedIntegerType();
        } else if (T->isPointerType()) { o["k"] = "ptr"; o["to"] = ty(T->getPointeeType()); }
        else if (T->isReferenceType()) { o["k"] = "ref"; o["rv"] = T->isRValueReferenceType(); o["to"] = ty(T->getPointeeType()); }
        else if (auto *R = T->getAs<RecordType>()) {
            o["k"] = "rec"; o["n"] = recName(R->getDecl());
            if (auto *TS = dyn_cast<ClassTemplateSpecializationDecl>(R->getDecl())) {
                o["tmpl"] = TS->getSpecializedTemplate()->getQualifiedNameAsString();
                json::Array a; targs(TS->getTemplateArgs().asArray(), a); o["args"] = std::move(a);
            } else if (auto *RD = dyn_cast<CXXRecordDecl>(R->getDecl())) { if (RD->isLambda()) o["lambda"] = true; o["tmpl"] = RD->getQualifiedNameAsString(); }
            types[id] = json::Object(o); // recursion guard
            record(R->getDecl());
        } else if (auto *A = C.getAsConstantArrayType(T)) { o["k"] = "arr"; o["to"] = ty(A->getElementType()); o["n"] = (int64_t)A->getSize().getZExtValue(); }
        else if (T->isArrayType()) { o["k"] = "arr"; o["to"] = ty(C.getAsArrayType(T)->getElementType()); }
        else if (T->isFunctionProtoType()) { auto *F = T->getAs<FunctionProtoType>(); o["k"] = "func"; o["ret"] = ty(F->getReturnType()); json::Array a; for (auto p : F->param_types()) a.push_back(ty(p)); o["params"] = std::move(a); o["variadic"] = F->isVariadic(); }
        else if (auto *M = T->getAs<MemberPointerType>()) { o["k"] = "memptr"; o["cls"] = M->getClass()->getAsCXXRecordDecl() ? recName(M->getClass()->getAsCXXRecordDecl()) : ""; o["to"] = ty(M->getPointeeType()); }
        else o["k"] = "other";
        types[id] = std::move(o);
        return id;
    }
    void targs(llvm::ArrayRef<TemplateArgument> A, json::Array &out) {
        for (auto &a : A) switch (a.getKind()) {
            case TemplateArgument::Type: out.push_back(json::Object{{"t", ty(a.getAsType())}}); break;
            case TemplateArgument::Integral: { llvm::SmallString<16> s; a.getAsIntegral().toString(s, 10); out.push_back(json::Object{{"v", s.str().str()}}); } break;
            case TemplateArgument::Pack: targs(a.getPackAsArray(), out); break;
            case TemplateArgument::Declaration: out.push_back(json::Object{{"d", a.getAsDecl()->getQualifiedNameAsString()}}); break;
            default: out.push_back(json::Object{{"o", 1}}); break;
        }
    }
    void record(const RecordDecl *R0) {
        auto *R = R0->getDefinition(); if (!R) return;
        std::string n = recName(R);
        if (recDone[n]) return; recDone[n] = true;
        json::Object o; o["qn"] = R->getQualifiedNameAsString(); o["union"] = R->isUnion();
        bool mine = inRepo(R->getLocation());
        o["repo"] = mine; o["loc"] = loc(R->getLocation());
        auto *RD = dyn_cast<CXXRecordDecl>(R);
        if (RD) {
            json::Array bases; for (auto &b : RD->bases()) { json::Object bo{{"t", ty(b.getType())}, {"virtual", b.isVirtual()}}; bases.push_back(std::move(bo)); }
            o["bases"] = std::move(bases); o["poly"] = RD->isPolymorphic();
            o["trivialDtor"] = RD->hasTrivialDestructor();
            if (mine) {
                if (auto *D = RD->getDestructor()) o["dtor"] = fnRef(D);
                json::Object ov;
                for (auto *M : RD->methods()) if (M->isVirtual()) {
                    std::string id = fnRef(M);
                    json::Array b; 
                    for (auto *O : M->overridden_methods()) b.push_back(fnRef(O));
                    ov[id] = json::Object{{"n", M->getNameAsString()}, {"over", std::move(b)}};
                }
                o["virt"] = std::move(ov);
            }
            if (auto *TS = dyn_cast<ClassTemplateSpecializationDecl>(R)) { json::Array a; targs(TS->getTemplateArgs().asArray(), a); o["args"] = std::move(a); o["tmpl"] = TS->getSpecializedTemplate()->getQualifiedNameAsString(); }
        }
        if (mine) {
            json::Array fs; for (auto *F : R->fields()) { json::Object fo{{"n", F->getNameAsString()}, {"t", ty(F->getType())}, {"id", varId(F->getCanonicalDecl())}}; fs.push_back(std::move(fo)); }
            o["fields"] = std::move(fs);
        }
        records[n] = std::move(o);
    }
    static const FunctionDecl *def(const FunctionDecl *F) { const FunctionDecl *D = nullptr; if (F->hasBody(D)) return D; if (F->isDefaulted()) return F; return nullptr; }
    std::string fnRef(const FunctionDecl *F) {
        std::string id = fnId(F);
        const FunctionDecl *D = def(F);
        if (D && (inRepo(D->getLocation()) ) && queued.insert(D->getCanonicalDecl()).second) work.push_back(D);
        return id;
    }
    std::string fnId(const FunctionDecl *F) {
        F = F->getCanonicalDecl();
        auto it = fnIds.find(F); if (it != fnIds.end()) return it->second;
        std::string s;
        bool lam = false;
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) { auto *DC = cast<DeclContext>(M->getParent()); while (DC) { if (auto *R = dyn_cast<CXXRecordDecl>(DC)) if (R->isLambda()) lam = true; if (isa<FunctionDecl>(DC) && cast<DeclContext>(M->getParent()) != DC) lam = true; DC = DC->getParent(); } }
        if (!lam && !F->getType()->isDependentType() && MC->shouldMangleDeclName(F)) {
            llvm::raw_string_ostream os(s);
            if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) MC->mangleName(GlobalDecl(CD, Ctor_Complete), os);
            else if (auto *DD = dyn_cast<CXXDestructorDecl>(F)) MC->mangleName(GlobalDecl(DD, Dtor_Complete), os);
            else MC->mangleName(F, os);
            os.flush();
            if (F->getFormalLinkage() == Linkage::Internal) s += "@" + tu;
        } else if (lam) s = "L" + std::to_string(nextLocal++) + "@" + loc(F->getLocation()) + "@" + tu;
        else s = F->getQualifiedNameAsString();
        return fnIds[F] = s;
    }
    json::Object callee(const FunctionDecl *F) {
        json::Object o; o["id"] = fnRef(F); o["qn"] = F->getQualifiedNameAsString(); o["n"] = F->getNameAsString();
        if (auto *TA = F->getTemplateSpecializationArgs()) { json::Array a; targs(TA->asArray(), a); o["args"] = std::move(a); }
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) { o["rec"] = ty(C.getRecordType(M->getParent())); o["static"] = M->isStatic(); if (M->isVirtual()) o["virtual"] = true; if (M->isConst()) o["constm"] = true;
            if (auto *CD = dyn_cast<CXXConstructorDecl>(M)) { o["ctor"] = true; o["copy"] = CD->isCopyConstructor(); o["move"] = CD->isMoveConstructor(); o["default"] = CD->isDefaultConstructor(); }
            if (M->isCopyAssignmentOperator()) o["copyassign"] = true; if (M->isMoveAssignmentOperator()) o["moveassign"] = true;
            if (isa<CXXConversionDecl>(M)) o["conv"] = true;
            if (M->isDefaulted()) o["defaulted"] = true;
            if (isa<CXXDestructorDecl>(M)) o["dtor"] = true; }
        if (F->isVariadic()) o["variadic"] = true;
        if (F->isNoReturn()) o["noreturn"] = true;
        json::Array ps; for (auto *p : F->parameters()) ps.push_back(ty(p->getType())); o["ptypes"] = std::move(ps);
        o["ret"] = ty(F->getReturnType());
        return o;
    }
    json::Value kids(const Stmt *S) { json::Array a; for (auto *c : S->children()) a.push_back(node(c)); return a; }

    json::Value var(const VarDecl *V) {
        json::Object o; o["id"] = varId(V->getCanonicalDecl()); o["n"] = V->getNameAsString(); o["t"] = ty(V->getType());
        if (V->isStaticLocal()) o["static"] = true;
        if (V->getInit()) o["init"] = node(V->getInit());
        o["l"] = line(V->getLocation());
        return o;
    }
    json::Value node(const Stmt *S) {
        if (!S) return nullptr;
        if (auto *P = dyn_cast<ParenExpr>(S)) return node(P->getSubExpr());
        if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) return node(P->getReplacement());
        if (auto *P = dyn_cast<CXXDefaultArgExpr>(S)) return node(P->getExpr());
        if (auto *P = dyn_cast<CXXDefaultInitExpr>(S)) return node(P->getExpr());
        if (auto *P = dyn_cast<ConstantExpr>(S)) return node(P->getSubExpr());
        if (auto *P = dyn_cast<CXXBindTemporaryExpr>(S)) return node(P->getSubExpr());
        if (auto *P = dyn_cast<ImplicitCastExpr>(S)) if (P->getCastKind() == CK_NoOp || P->getCastKind() == CK_FunctionToPointerDecay || P->getCastKind() == CK_BuiltinFnToFnPtr) return node(P->getSubExpr());
        if (auto *P = dyn_cast<ExprWithCleanups>(S)) return json::Object{{"k", "ExprWithCleanups"}, {"t", ty(P->getType())}, {"c", json::Array{node(P->getSubExpr())}}};
        json::Object o; o["k"] = S->getStmtClassName(); o["l"] = line(S->getBeginLoc());
        if (auto *E = dyn_cast<Expr>(S)) {
            o["t"] = ty(E->getType());
            if (E->isLValue()) o["lv"] = 1; else if (E->isXValue()) o["lv"] = 2;
            if (!E->isValueDependent() && E->isPRValue() && E->getType()->isIntegralOrEnumerationType()) {
                Expr::EvalResult R;
                if (!isa<IntegerLiteral>(E) && E->EvaluateAsInt(R, C) && !R.HasSideEffects) { llvm::SmallString<16> s; R.Val.getInt().toString(s, 10); o["cv"] = s.str().str(); return o; }
            }
        }
        switch (S->getStmtClass()) {
        case Stmt::DeclRefExprClass: {
            auto *D = cast<DeclRefExpr>(S)->getDecl();
            if (auto *F = dyn_cast<FunctionDecl>(D)) { o["fn"] = callee(F); }
            else if (auto *V = dyn_cast<VarDecl>(D)) { o["var"] = varId(V->getCanonicalDecl()); o["n"] = V->getNameAsString(); if (V->hasGlobalStorage() && !V->isStaticLocal()) { o["global"] = V->getQualifiedNameAsString(); globalVar(V); } }
            else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { llvm::SmallString<16> s; EC->getInitVal().toString(s, 10); o["cv"] = s.str().str(); }
            else if (auto *FD = dyn_cast<FieldDecl>(D)) { o["field"] = FD->getNameAsString(); o["frec"] = recName(FD->getParent()); }
            else if (auto *B = dyn_cast<BindingDecl>(D)) { o["binding"] = B->getNameAsString(); }
            return o; }
        case Stmt::MemberExprClass: {
            auto *M = cast<MemberExpr>(S); o["arrow"] = M->isArrow(); o["c"] = json::Array{node(M->getBase())};
            auto *D = M->getMemberDecl();
            if (auto *F = dyn_cast<FieldDecl>(D)) { o["field"] = F->getNameAsString(); o["frec"] = recName(F->getParent()); o["idx"] = (int)F->getFieldIndex(); ty(C.getRecordType(F->getParent())); }
            else if (auto *F = dyn_cast<FunctionDecl>(D)) { o["fn"] = callee(F); o["qual"] = M->hasQualifier(); }
            else if (auto *V = dyn_cast<VarDecl>(D)) { o["var"] = varId(V->getCanonicalDecl()); o["global"] = V->getQualifiedNameAsString(); globalVar(V); }
            return o; }
        case Stmt::IntegerLiteralClass: { llvm::SmallString<16> s; cast<IntegerLiteral>(S)->getValue().toString(s, 10, cast<Expr>(S)->getType()->isSignedIntegerType()); o["v"] = s.str().str(); return o; }
        case Stmt::CharacterLiteralClass: o["v"] = std::to_string(cast<CharacterLiteral>(S)->getValue()); return o;
        case Stmt::CXXBoolLiteralExprClass: o["v"] = cast<CXXBoolLiteralExpr>(S)->getValue(); return o;
        case Stmt::StringLiteralClass: { auto b = cast<StringLiteral>(S)->getBytes(); json::Array a; for (unsigned char c : b) a.push_back((int)c); o["bytes"] = std::move(a); return o; }
        case Stmt::FloatingLiteralClass: o["v"] = cast<FloatingLiteral>(S)->getValueAsApproximateDouble(); return o;
        case Stmt::PredefinedExprClass: return o;
        case Stmt::UnaryOperatorClass: { auto *U = cast<UnaryOperator>(S); o["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()); o["postfix"] = U->isPostfix(); o["c"] = kids(S); return o; }
        case Stmt::BinaryOperatorClass: o["op"] = cast<BinaryOperator>(S)->getOpcodeStr(); o["c"] = kids(S); return o;
        case Stmt::CompoundAssignOperatorClass: o["op"] = cast<BinaryOperator>(S)->getOpcodeStr(); o["ct"] = ty(cast<CompoundAssignOperator>(S)->getComputationResultType()); o["clt"] = ty(cast<CompoundAssignOperator>(S)->getComputationLHSType()); o["c"] = kids(S); return o;
        case Stmt::CallExprClass: case Stmt::CXXMemberCallExprClass: case Stmt::CXXOperatorCallExprClass: {
            auto *CE = cast<CallExpr>(S);
            if (auto *F = CE->getDirectCallee()) { o["fn"] = callee(F); unsigned bi = F->getBuiltinID(); if (bi) o["builtin"] = (int64_t)bi; }
            o["callee"] = node(CE->getCallee());
            json::Array a; for (auto *x : CE->arguments()) a.push_back(node(x)); o["args"] = std::move(a);
            if (auto *OC = dyn_cast<CXXOperatorCallExpr>(CE)) o["op"] = getOperatorSpelling(OC->getOperator());
            return o; }
        case Stmt::CXXConstructExprClass: case Stmt::CXXTemporaryObjectExprClass: {
            auto *CE = cast<CXXConstructExpr>(S); o["fn"] = callee(CE->getConstructor()); o["elid"] = CE->isElidable(); o["list"] = CE->isListInitialization(); o["zero"] = CE->requiresZeroInitialization(); o["il"] = CE->isStdInitListInitialization();
            json::Array a; for (auto *x : CE->arguments()) a.push_back(node(x)); o["args"] = std::move(a); return o; }
        case Stmt::CXXInheritedCtorInitExprClass: { auto *CE = cast<CXXInheritedCtorInitExpr>(S); o["fn"] = callee(CE->getConstructor()); return o; }
        case Stmt::CXXNewExprClass: { auto *N = cast<CXXNewExpr>(S); o["at"] = ty(N->getAllocatedType()); o["array"] = N->isArray(); if (N->isArray() && N->getArraySize()) o["size"] = node(*N->getArraySize()); if (N->getInitializer()) o["init"] = node(N->getInitializer()); 
            o["initstyle"] = N->hasInitializer() ? (int)(N->getInitializer() && isa<InitListExpr>(N->getInitializer()) ? 2 : 1) : 0; return o; }
        case Stmt::CXXDeleteExprClass: { auto *N = cast<CXXDeleteExpr>(S); o["array"] = N->isArrayForm(); o["c"] = json::Array{node(N->getArgument())}; o["dt"] = ty(N->getDestroyedType()); return o; }
        case Stmt::LambdaExprClass: {
            auto *L = cast<LambdaExpr>(S); 
            auto *RD = L->getLambdaClass();
            json::Array caps; auto fi = RD->field_begin(); auto ii = L->capture_init_begin();
            for (auto &c : L->captures()) { json::Object co; co["byref"] = c.getCaptureKind() == LCK_ByRef; if (c.capturesThis()) co["this"] = true; else if (c.capturesVariable()) { auto *v = cast<VarDecl>(c.getCapturedVar()); co["var"] = varId(v->getCanonicalDecl()); co["n"] = v->getNameAsString(); co["vt"] = ty(v->getType()); if (v->isInitCapture()) co["initcap"] = true; }
                co["init"] = node(*ii); ++ii; if (fi != RD->field_end()) ++fi; caps.push_back(std::move(co)); }
            o["caps"] = std::move(caps);
            if (!RD->isGenericLambda()) o["op"] = fnRef(L->getCallOperator()); else { o["generic"] = true; json::Array ops; std::string one; if (auto *FT = L->getCallOperator()->getDescribedFunctionTemplate()) for (auto *Sp : FT->specializations()) if (Sp->hasBody()) { std::string r = fnRef(Sp); if (std::find(ops.begin(), ops.end(), json::Value(r)) == ops.end()) { ops.push_back(r); one = r; } } if (ops.size() == 1) o["op"] = one; else o["ops"] = std::move(ops); }
            o["rec"] = recName(RD);
            return o; }
        case Stmt::InitListExprClass: { auto *I = cast<InitListExpr>(S); json::Array a; for (unsigned i = 0; i < I->getNumInits(); i++) a.push_back(node(I->getInit(i))); o["c"] = std::move(a); if (I->hasArrayFiller()) o["filler"] = node(I->getArrayFiller()); if (I->getInitializedFieldInUnion()) o["ufield"] = I->getInitializedFieldInUnion()->getNameAsString(); return o; }
        case Stmt::CXXTypeidExprClass: { auto *T = cast<CXXTypeidExpr>(S); if (T->isTypeOperand()) o["ty"] = ty(T->getTypeOperand(C)); else o["c"] = json::Array{node(T->getExprOperand())}; return o; }
        case Stmt::UnaryExprOrTypeTraitExprClass: return o;
        case Stmt::CXXThrowExprClass: o["c"] = json::Array{node(cast<CXXThrowExpr>(S)->getSubExpr())}; return o;
        case Stmt::VAArgExprClass: o["c"] = json::Array{node(cast<VAArgExpr>(S)->getSubExpr())}; return o;
        case Stmt::CompoundStmtClass: o["c"] = kids(S); return o;
        case Stmt::DeclStmtClass: { json::Array a; for (auto *D : cast<DeclStmt>(S)->decls()) if (auto *V = dyn_cast<VarDecl>(D)) a.push_back(var(V)); else if (isa<TypeDecl>(D) || isa<UsingDecl>(D) || isa<StaticAssertDecl>(D) || isa<UsingDirectiveDecl>(D)) {} else a.push_back(json::Object{{"other", D->getDeclKindName()}}); o["decls"] = std::move(a); return o; }
        case Stmt::IfStmtClass: { auto *I = cast<IfStmt>(S); if (I->getInit()) o["init"] = node(I->getInit()); if (I->getConditionVariable()) o["cvar"] = var(I->getConditionVariable()); o["cond"] = node(I->getCond()); o["then"] = node(I->getThen()); o["else"] = node(I->getElse()); return o; }
        case Stmt::WhileStmtClass: { auto *I = cast<WhileStmt>(S); if (I->getConditionVariable()) o["cvar"] = var(I->getConditionVariable()); o["cond"] = node(I->getCond()); o["body"] = node(I->getBody()); return o; }
        case Stmt::DoStmtClass: { auto *I = cast<DoStmt>(S); o["cond"] = node(I->getCond()); o["body"] = node(I->getBody()); return o; }
        case Stmt::ForStmtClass: { auto *I = cast<ForStmt>(S); o["init"] = node(I->getInit()); o["cond"] = node(I->getCond()); o["inc"] = node(I->getInc()); o["body"] = node(I->getBody()); if (I->getConditionVariable()) o["cvar"] = var(I->getConditionVariable()); return o; }
        case Stmt::CXXForRangeStmtClass: { auto *I = cast<CXXForRangeStmt>(S); o["range"] = node(I->getRangeInit()); o["rt"] = ty(I->getRangeInit()->getType()); o["lvar"] = var(I->getLoopVariable()); o["body"] = node(I->getBody()); return o; }
        case Stmt::SwitchStmtClass: { auto *I = cast<SwitchStmt>(S); if (I->getInit()) o["init"] = node(I->getInit()); if (I->getConditionVariable()) o["cvar"] = var(I->getConditionVariable()); o["cond"] = node(I->getCond()); o["body"] = node(I->getBody()); return o; }
        case Stmt::CaseStmtClass: { auto *I = cast<CaseStmt>(S); o["lhs"] = node(I->getLHS()); if (I->getRHS()) o["rhs"] = node(I->getRHS()); o["sub"] = node(I->getSubStmt()); return o; }
        case Stmt::DefaultStmtClass: o["sub"] = node(cast<DefaultStmt>(S)->getSubStmt()); return o;
        case Stmt::CXXTryStmtClass: { auto *I = cast<CXXTryStmt>(S); o["body"] = node(I->getTryBlock()); json::Array a; for (unsigned i = 0; i < I->getNumHandlers(); i++) { auto *H = I->getHandler(i); json::Object h; if (H->getExceptionDecl()) h["var"] = var(H->getExceptionDecl()); if (H->getCaughtType().isNull()) h["all"] = true; else h["ct"] = ty(H->getCaughtType()); h["body"] = node(H->getHandlerBlock()); a.push_back(std::move(h)); } o["handlers"] = std::move(a); return o; }
        default: break;
        }
        if (auto *CE = dyn_cast<CastExpr>(S)) {
            o["ck"] = CE->getCastKindName(); o["c"] = json::Array{node(CE->getSubExpr())};
            if (auto *F = dyn_cast_or_null<FunctionDecl>(CE->getConversionFunction())) o["conv"] = callee(F);
            return o;
        }
        o["c"] = kids(S);
        return o;
    }
    void globalVar(const VarDecl *V) {
        V = V->getCanonicalDecl(); if (!globDone.insert(V).second) return;
        json::Object o{{"id", varId(V)}, {"qn", V->getQualifiedNameAsString()}, {"t", ty(V->getType())}};
        globals.push_back(std::move(o));
    }
    void function(const FunctionDecl *F) {
        std::string id = fnId(F);
        if (fnDone[id]) return; fnDone[id] = true;
        json::Object o = callee(F);
        o["loc"] = loc(F->getLocation());
        json::Array ps; for (auto *p : F->parameters()) ps.push_back(json::Object{{"id", varId(p->getCanonicalDecl())}, {"n", p->getNameAsString()}, {"t", ty(p->getType())}});
        // parameters of the definition are distinct decls
        const FunctionDecl *D = def(F); if (!D) return;
        json::Array ps2; for (auto *p : D->parameters()) ps2.push_back(json::Object{{"id", varId(p->getCanonicalDecl())}, {"n", p->getNameAsString()}, {"t", ty(p->getType())}});
        o["params"] = std::move(ps2);
        if (auto *CD = dyn_cast<CXXConstructorDecl>(D)) {
            json::Array in; for (auto *I : CD->inits()) { json::Object io; if (I->isBaseInitializer()) { io["base"] = ty(QualType(I->getBaseClass(), 0)); io["bvirt"] = I->isBaseVirtual(); } else if (I->isMemberInitializer()) { io["field"] = I->getMember()->getNameAsString(); io["ft"] = ty(I->getMember()->getType()); } else if (I->isDelegatingInitializer()) io["deleg"] = true; else if (I->isIndirectMemberInitializer()) io["field"] = I->getAnyMember()->getNameAsString(); io["e"] = node(I->getInit()); in.push_back(std::move(io)); }
            o["inits"] = std::move(in);
        }
        if (auto *M = dyn_cast<CXXMethodDecl>(D)) if (M->getParent()->isLambda()) {
            // captured variables appear as DeclRefExpr to the original variable
            o["lambda"] = recName(M->getParent());
        }
        o["body"] = node(D->getBody());
        functions[id] = std::move(o);
    }
    void drain() { while (!work.empty()) { auto *F = work.front(); work.pop_front(); function(F); } }
};

struct V : RecursiveASTVisitor<V> {
    Exporter &X; V(Exporter &X) : X(X) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl *F) {
        if (F->isDependentContext() || F->getType()->isDependentType()) return true;
        if (!F->isThisDeclarationADefinition()) return true;
        if (F->isDeleted()) return true;
        if (!X.inRepo(F->getLocation())) return true;
        if (!F->hasBody()) return true;
        X.fnRef(F); return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *R) {
        if (R->isDependentContext() || !R->isThisDeclarationADefinition() || R->isLambda()) return true;
        if (!X.inRepo(R->getLocation())) return true;
        X.ty(X.C.getRecordType(R)); return true;
    }
};

struct Consumer : ASTConsumer {
    std::string file; CompilerInstance &CI; Consumer(CompilerInstance &CI, std::string f) : file(f), CI(CI) {}
    void HandleTranslationUnit(ASTContext &C) override {
        if (C.getDiagnostics().hasErrorOccurred()) return;
        auto slash = file.find_last_of('/');
        Exporter X(C, slash == std::string::npos ? file : file.substr(slash + 1));
        // force definition of implicit members of repository classes
        V v(X); v.TraverseDecl(C.getTranslationUnitDecl());
        X.drain();
        json::Object root{{"tu", file}, {"types", std::move(X.types)}, {"functions", std::move(X.functions)}, {"records", std::move(X.records)}, {"globals", std::move(X.globals)}};
        std::error_code ec; llvm::raw_fd_ostream os(g_out, ec); os << json::Value(std::move(root)); 
    }
};
struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef f) override { return std::make_unique<Consumer>(CI, f.str()); }
};
int main(int argc, const char **argv) {
    // cxport ROOT OUT FILE -- flags...
    g_root = argv[1]; g_out = argv[2]; std::string file = argv[3];
    std::vector<std::string> flags; for (int i = 5; i < argc; i++) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase DB(".", flags);
    tooling::ClangTool Tool(DB, {file});
    struct F : tooling::FrontendActionFactory { std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); } } fac;
    return Tool.run(&fac);
}
