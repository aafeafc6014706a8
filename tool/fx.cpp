// fx: exports the resolved program (declarations, types, constants, per-function
// control-flow graphs over a fully linearised expression order) of one translation
// unit as JSON. Nothing of the analysed program is executed.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/ExprConcepts.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Lex/Lexer.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;
static llvm::cl::OptionCategory Cat("fx");
static llvm::cl::opt<std::string> Out("o", llvm::cl::desc("output"), llvm::cl::cat(Cat));
static llvm::cl::list<std::string> Roots("root", llvm::cl::desc("source roots"), llvm::cl::cat(Cat));

namespace {
struct Exporter : RecursiveASTVisitor<Exporter> {
    ASTContext& C; SourceManager& SM; PrintingPolicy PP;
    json::Array funcs, records, enums, globals; json::Array types;
    std::map<const void*, int> typeIds, declIds; std::set<const void*> seenF, seenR, seenE, seenV;
    int nextDecl = 1;
    explicit Exporter(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()) {
        PP.SuppressTagKeyword = true; PP.Bool = true; PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true;
        PP.SuppressInlineNamespace = true;
    }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool shouldVisitLambdaBody() const { return true; }

    std::string fileOf(SourceLocation L) {
        if (L.isInvalid()) return "";
        L = SM.getExpansionLoc(L);
        auto F = SM.getFileEntryRefForID(SM.getFileID(L));
        if (!F) return "";
        llvm::SmallString<256> P(F->getName());
        SM.getFileManager().makeAbsolutePath(P);
        llvm::sys::path::remove_dots(P, true);
        return std::string(P);
    }
    int lineOf(SourceLocation L) { return L.isInvalid() ? 0 : (int)SM.getExpansionLineNumber(L); }
    bool inRoot(SourceLocation L) {
        auto f = fileOf(L);
        for (auto& r : Roots) if (f.compare(0, r.size(), r) == 0) return true;
        return false;
    }
    std::string qn(const NamedDecl* D) {
        std::string s; llvm::raw_string_ostream os(s);
        PrintingPolicy P = PP; P.SuppressUnwrittenScope = true;
        D->printQualifiedName(os, P); return os.str();
    }
    int did(const Decl* D) {
        const Decl* K = D->getCanonicalDecl();
        auto& i = declIds[K]; if (!i) i = nextDecl++; return i;
    }
    static std::string recName(const CXXRecordDecl* R, Exporter& E) {
        if (auto* S = dyn_cast<ClassTemplateSpecializationDecl>(R)) return E.qn(S->getSpecializedTemplate());
        return E.qn(R);
    }
    int ty(QualType T) {
        if (T.isNull()) return -1;
        QualType K = T.getCanonicalType();
        auto it = typeIds.find(K.getAsOpaquePtr()); if (it != typeIds.end()) return it->second;
        int id = (int)types.size(); typeIds[K.getAsOpaquePtr()] = id; types.push_back(nullptr);
        json::Object o; o["s"] = K.getAsString(PP);
        QualType B = K.getNonReferenceType();
        if (K->isReferenceType()) { o["ref"] = K->isRValueReferenceType() ? "rr" : "lr"; }
        if (B.isConstQualified()) o["const"] = true;
        if (B->isPointerType()) { o["ptr"] = true; o["pointee"] = ty(B->getPointeeType()); }
        if (K->isReferenceType()) o["pointee"] = ty(B.getUnqualifiedType());
        if (B->isEnumeralType()) { o["enum"] = qn(B->castAs<EnumType>()->getDecl()); }
        if (B->isIntegralOrEnumerationType() && !B->isDependentType() && !B->isIncompleteType()) {
            o["bits"] = (int64_t)C.getTypeSize(B); o["sign"] = B->isSignedIntegerOrEnumerationType();
            if (B->isBooleanType()) o["bool"] = true; if (B->isAnyCharacterType()) o["char"] = true;
        }
        if (B->isFloatingType()) o["float"] = true;
        if (B->isArrayType()) { o["array"] = true; if (auto* A = C.getAsConstantArrayType(B)) { o["len"] = (int64_t)A->getSize().getZExtValue(); }
            if (auto* A = C.getAsArrayType(B)) o["elem"] = ty(A->getElementType()); }
        if (auto* R = B->getAsCXXRecordDecl()) {
            o["rec"] = recName(R, *this);
            if (R->isLambda()) { o["lambda"] = true; if (auto* M = R->getLambdaCallOperator()) o["call"] = did(M); }
            if (auto* S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
                json::Array a;
                std::function<void(const TemplateArgument&)> add = [&](const TemplateArgument& A) {
                    if (A.getKind() == TemplateArgument::Type) a.push_back(json::Object{{"t", ty(A.getAsType())}});
                    else if (A.getKind() == TemplateArgument::Integral) {
                        llvm::SmallString<32> s; A.getAsIntegral().toString(s, 10);
                        json::Object io{{"v", std::string(s)}};
                        if (A.getIntegralType()->isEnumeralType()) io["enum"] = qn(A.getIntegralType()->castAs<EnumType>()->getDecl());
                        a.push_back(std::move(io)); }
                    else if (A.getKind() == TemplateArgument::Pack) { for (auto& x : A.pack_elements()) add(x); }
                    else a.push_back(nullptr);
                };
                for (auto& A : S->getTemplateArgs().asArray()) add(A);
                o["args"] = std::move(a);
            }
        }
        types[id] = std::move(o);
        return id;
    }
    static std::string intStr(const llvm::APSInt& v) { llvm::SmallString<32> s; v.toString(s, 10); return std::string(s); }
    json::Value apv(const APValue& V, int depth = 0) {
        if (depth > 6) return "...";
        switch (V.getKind()) {
        case APValue::Int: { auto& i = V.getInt(); if (i.isSigned() ? i.getSignificantBits() <= 63 : i.getActiveBits() <= 62) return i.getExtValue(); return intStr(i); }
        case APValue::Float: return V.getFloat().convertToDouble();
        case APValue::Array: {
            json::Array a; unsigned n = V.getArraySize(), m = V.getArrayInitializedElts();
            if (n > 4096) return "toolarge";
            for (unsigned i = 0; i < n; ++i) a.push_back(i < m ? apv(V.getArrayInitializedElt(i), depth + 1) : V.hasArrayFiller() ? apv(V.getArrayFiller(), depth + 1) : json::Value(nullptr));
            return a; }
        case APValue::Struct: { json::Array a; for (unsigned i = 0; i < V.getStructNumBases(); ++i) a.push_back(apv(V.getStructBase(i), depth + 1));
            for (unsigned i = 0; i < V.getStructNumFields(); ++i) a.push_back(apv(V.getStructField(i), depth + 1)); return a; }
        case APValue::LValue: {
            if (V.isNullPointer()) return json::Object{{"null", true}};
            if (auto* E = V.getLValueBase().dyn_cast<const Expr*>())
                if (auto* S = dyn_cast<StringLiteral>(E)) if (S->getCharByteWidth() == 1) return json::Object{{"str", json::fixUTF8(S->getString())}};
            if (auto* D = V.getLValueBase().dyn_cast<const ValueDecl*>()) return json::Object{{"ref", qn(D)}};
            return json::Object{{"lv", true}}; }
        default: return nullptr;
        }
    }
    // ---- functions -------------------------------------------------------
    struct FnState { json::Object nodes; std::map<const Stmt*, int> ids; json::Object vars; std::set<const VarDecl*> vseen; };
    FnState* F = nullptr;
    void var(const VarDecl* V) {
        if (!F->vseen.insert(V).second) return;
        json::Object o; o["n"] = V->getNameAsString(); o["t"] = ty(V->getType());
        o["k"] = isa<ParmVarDecl>(V) ? "param" : V->isStaticLocal() ? "static" : V->isLocalVarDecl() ? "local" : "global"; if (V->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
        if (V->isConstexpr()) o["constexpr"] = true;
        if (!V->isLocalVarDeclOrParm()) o["qn"] = qn(V);
        o["l"] = lineOf(V->getLocation());
        if (auto* D = dyn_cast<DecompositionDecl>(V)) { json::Array b; for (auto* B : D->bindings()) b.push_back(did(B)); o["bind"] = std::move(b); }
        std::string key = std::to_string(did(V));
        F->vars[key] = json::Object{};   // reserve
        if (V->isLocalVarDecl() && V->getInit()) o["init"] = node(V->getInit());
        F->vars[key] = std::move(o);
    }
    json::Object calleeInfo(const FunctionDecl* FD) {
        json::Object o; o["qn"] = qn(FD); o["fid"] = did(FD); o["n"] = FD->getNameAsString();
        if (auto* M = dyn_cast<CXXMethodDecl>(FD)) {
            o["rec"] = recName(M->getParent(), *this); if (M->isVirtual()) o["virt"] = true; if (M->isConst()) o["const"] = true; if (M->isStatic()) o["static"] = true;
            if (M->getParent()->isLambda()) o["lambda"] = true;
            o["rt"] = ty(C.getRecordType(M->getParent()));
        }
        json::Array p; for (auto* P : FD->parameters()) p.push_back(ty(P->getType())); o["pt"] = std::move(p);
        o["ret"] = ty(FD->getReturnType());
        if (FD->isNoReturn()) o["noreturn"] = true;
        if (FD->isImplicit()) o["implicit"] = true;
        if (FD->isDefaulted()) o["defaulted"] = true;
        if (auto* A = FD->getTemplateSpecializationArgs()) {
            json::Array a;
            std::function<void(const TemplateArgument&)> add = [&](const TemplateArgument& A) {
                if (A.getKind() == TemplateArgument::Type) a.push_back(json::Object{{"t", ty(A.getAsType())}});
                else if (A.getKind() == TemplateArgument::Integral) a.push_back(json::Object{{"v", intStr(A.getAsIntegral())}});
                else if (A.getKind() == TemplateArgument::Pack) { for (auto& x : A.pack_elements()) add(x); }
                else a.push_back(nullptr);
            };
            for (auto& x : A->asArray()) add(x); o["targs"] = std::move(a);
        }
        if (auto* PT = FD->getType()->getAs<FunctionProtoType>()) { auto es = PT->getExceptionSpecType(); if (es == EST_BasicNoexcept || es == EST_NoexceptTrue || es == EST_DynamicNone || es == EST_NoThrow) o["nothrow"] = true; }
        return o;
    }
    int node(const Stmt* S) {
        if (!S) return -1;
        auto it = F->ids.find(S); if (it != F->ids.end()) return it->second;
        int id = (int)F->ids.size(); F->ids[S] = id;
        json::Object o; o["k"] = S->getStmtClassName(); o["l"] = lineOf(S->getBeginLoc());
        { auto b = S->getBeginLoc(); if (b.isMacroID()) o["mac"] = std::string(Lexer::getImmediateMacroName(b, SM, C.getLangOpts())); }
        json::Array kids; bool dokids = true;
        if (auto* E = dyn_cast<Expr>(S)) {
            o["t"] = ty(E->getType());
            o["vk"] = E->isPRValue() ? "r" : E->isXValue() ? "x" : "l";
            if (!E->isValueDependent() && !E->isTypeDependent() && E->isPRValue() && E->getType()->isIntegralOrEnumerationType()) {
                Expr::EvalResult R;
                if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects) && R.Val.isInt()) o["v"] = apv(R.Val);
            }
        }
        if (auto* D = dyn_cast<DeclRefExpr>(S)) {
            auto* V = D->getDecl(); o["d"] = did(V); o["n"] = V->getNameAsString(); o["qn"] = qn(V);
            o["dk"] = V->getDeclKindName();
            if (auto* VD = dyn_cast<VarDecl>(V)) { var(VD); if (VD->isConstexpr() && VD->getInit() && !VD->getInit()->isValueDependent()) if (auto* A = VD->evaluateValue()) { auto x = apv(*A); o["cv"] = std::move(x);} }
            if (auto* B = dyn_cast<BindingDecl>(V)) {
                if (B->getHoldingVar()) { o["hold"] = did(B->getHoldingVar()); var(B->getHoldingVar()); }
                if (auto* DD = dyn_cast_or_null<VarDecl>(B->getDecomposedDecl())) { var(DD); o["decomp"] = did(DD); unsigned i = 0; for (auto* BB : cast<DecompositionDecl>(DD)->bindings()) { if (BB == B) o["bi"] = (int64_t)i; ++i; } }
                if (B->getBinding()) o["bx"] = node(B->getBinding());
            }
            if (auto* FD = dyn_cast<FunctionDecl>(V)) o["fn"] = calleeInfo(FD);
            if (auto* EC = dyn_cast<EnumConstantDecl>(V)) o["ev"] = apv(APValue(EC->getInitVal()));
        } else if (auto* M = dyn_cast<MemberExpr>(S)) {
            auto* V = M->getMemberDecl(); o["m"] = V->getNameAsString(); o["qn"] = qn(V); o["arrow"] = M->isArrow(); o["dk"] = V->getDeclKindName(); o["d"] = did(V);
            if (auto* FDc = dyn_cast<FieldDecl>(V)) o["rec"] = recName(cast<CXXRecordDecl>(FDc->getParent()), *this);
            if (auto* FD = dyn_cast<FunctionDecl>(V)) o["fn"] = calleeInfo(FD);
        } else if (auto* CE = dyn_cast<CallExpr>(S)) {
            if (auto* FD = CE->getDirectCallee()) o["callee"] = calleeInfo(FD);
            if (auto* OC = dyn_cast<CXXOperatorCallExpr>(CE)) o["op"] = getOperatorSpelling(OC->getOperator());
            if (auto* MC = dyn_cast<CXXMemberCallExpr>(CE)) { o["obj"] = node(MC->getImplicitObjectArgument()); 
                if (auto* ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParens())) if (ME->hasQualifier()) o["qualified"] = true; }
            json::Array a; for (auto* A : CE->arguments()) a.push_back(node(A)); o["args"] = std::move(a);
        } else if (auto* CC = dyn_cast<CXXConstructExpr>(S)) {
            auto* K = CC->getConstructor(); o["callee"] = calleeInfo(K); o["rec"] = recName(K->getParent(), *this);
            if (K->isCopyConstructor()) o["copy"] = true; if (K->isMoveConstructor()) o["move"] = true; if (K->isDefaultConstructor()) o["dflt"] = true;
            if (CC->isElidable()) o["elid"] = true; if (CC->isListInitialization()) o["list"] = true; if (CC->requiresZeroInitialization()) o["zero"] = true;
            json::Array a; for (auto* A : CC->arguments()) a.push_back(node(A)); o["args"] = std::move(a);
        } else if (auto* B = dyn_cast<BinaryOperator>(S)) { o["op"] = B->getOpcodeStr().str(); if (B->isAssignmentOp()) o["asg"] = true; }
        else if (auto* RB = dyn_cast<CXXRewrittenBinaryOperator>(S)) { o["op"] = RB->getOpcodeStr().str(); o["rev"] = RB->isReversed(); json::Array a; auto D = RB->getDecomposedForm(); a.push_back(node(D.LHS)); a.push_back(node(D.RHS)); o["args"] = std::move(a); }
        else if (auto* U = dyn_cast<UnaryOperator>(S)) { o["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str(); if (U->isPostfix()) o["post"] = true; }
        else if (auto* K = dyn_cast<CastExpr>(S)) { o["ck"] = K->getCastKindName(); if (isa<ImplicitCastExpr>(K)) o["impl"] = true; }
        else if (auto* I = dyn_cast<IntegerLiteral>(S)) { o["v"] = apv(APValue(llvm::APSInt(I->getValue(), !I->getType()->isSignedIntegerType()))); }
        else if (auto* L = dyn_cast<StringLiteral>(S)) { if (L->getCharByteWidth() == 1) { std::string h; for (unsigned char c : L->getString()) { static const char* x = "0123456789abcdef"; h += x[c >> 4]; h += x[c & 15]; } o["hex"] = h; o["str"] = json::fixUTF8(L->getString()); } }
        else if (auto* L = dyn_cast<FloatingLiteral>(S)) { o["fv"] = L->getValueAsApproximateDouble(); }
        else if (auto* D = dyn_cast<DeclStmt>(S)) {
            json::Array a; for (auto* d : D->decls()) if (auto* V = dyn_cast<VarDecl>(d)) { var(V); a.push_back(did(V)); }
            o["vars"] = std::move(a); dokids = false;
        } else if (auto* L = dyn_cast<LambdaExpr>(S)) {
            json::Array a; auto init = L->capture_init_begin();
            for (auto& c : L->captures()) {
                json::Object q; q["by"] = c.getCaptureKind() == LCK_This ? "this" : c.getCaptureKind() == LCK_StarThis ? "*this" : c.getCaptureKind() == LCK_ByRef ? "ref" : "copy";
                if (c.capturesVariable()) { q["d"] = did(c.getCapturedVar()); q["n"] = c.getCapturedVar()->getNameAsString(); if (auto* V = dyn_cast<VarDecl>(c.getCapturedVar())) { var(V); if (V->isInitCapture()) q["init"] = true; } }
                if (*init) q["e"] = node(*init); ++init; a.push_back(std::move(q));
            }
            o["caps"] = std::move(a); if (L->getCallOperator()) { o["fid"] = did(L->getCallOperator()); if (auto* T = L->getCallOperator()->getDescribedFunctionTemplate()) { json::Array sp; for (auto* s : T->specializations()) sp.push_back(did(s)); o["spec"] = std::move(sp); } }
            dokids = false;
        } else if (auto* T = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) { dokids = false; if (T->isArgumentType()) o["at"] = ty(T->getArgumentType()); else o["at"] = ty(T->getArgumentExpr()->getType()); }
        else if (auto* N = dyn_cast<CXXNewExpr>(S)) { if (N->getOperatorNew()) o["callee"] = calleeInfo(N->getOperatorNew()); }
        else if (auto* D = dyn_cast<CXXDefaultArgExpr>(S)) { kids.push_back(node(D->getExpr())); dokids = false; }
        else if (auto* D = dyn_cast<CXXDefaultInitExpr>(S)) { kids.push_back(node(D->getExpr())); dokids = false; o["fld"] = D->getField()->getNameAsString(); }
        else if (auto* I = dyn_cast<InitListExpr>(S)) { if (I->isSemanticForm() || !I->getSemanticForm()) {} else { kids.push_back(node(I->getSemanticForm())); dokids = false; } }
        else if (auto* M = dyn_cast<MaterializeTemporaryExpr>(S)) { if (M->getExtendingDecl()) o["ext"] = did(M->getExtendingDecl()); }
        else if (auto* H = dyn_cast<CXXCatchStmt>(S)) { if (H->getExceptionDecl()) { var(H->getExceptionDecl()); o["exc"] = did(H->getExceptionDecl()); o["ct"] = ty(H->getCaughtType()); } else o["all"] = true; dokids = false; }
        else if (auto* T = dyn_cast<CXXTryStmt>(S)) { json::Array a; for (unsigned i = 0; i < T->getNumHandlers(); ++i) a.push_back(node(T->getHandler(i))); o["handlers"] = std::move(a); json::Array cov; collectIds(T->getTryBlock(), cov); o["covers"] = std::move(cov); dokids = false; }
        else if (auto* Ca = dyn_cast<CaseStmt>(S)) { o["lhs"] = node(Ca->getLHS()); dokids = false; }
        else if (isa<DefaultStmt>(S) || isa<CompoundStmt>(S)) dokids = false;
        else if (auto* I = dyn_cast<IfStmt>(S)) { o["constexpr"] = I->isConstexpr(); dokids = false; if (I->getCond()) o["cond"] = node(I->getCond()); }
        else if (auto* W = dyn_cast<SwitchStmt>(S)) { dokids = false; o["cond"] = node(W->getCond()); }
        else if (isa<ForStmt>(S) || isa<WhileStmt>(S) || isa<DoStmt>(S) || isa<CXXForRangeStmt>(S)) { dokids = false;
            if (auto* R = dyn_cast<CXXForRangeStmt>(S)) { o["range"] = node(R->getRangeInit()); if (R->getLoopVariable()) { var(R->getLoopVariable()); o["lv"] = did(R->getLoopVariable()); } }
            json::Array cov; collectIds(S, cov); o["body"] = std::move(cov); }
        if (dokids) for (auto* c : S->children()) if (c) kids.push_back(node(c));
        if (!kids.empty()) o["c"] = std::move(kids);
        F->nodes[std::to_string(id)] = std::move(o);
        return id;
    }
    // ids of all expressions syntactically inside a statement
    void collectIds(const Stmt* S, json::Array& a) {
        if (!S) return;
        if (isa<Expr>(S) || isa<DeclStmt>(S) || isa<ReturnStmt>(S)) a.push_back(node(S));
        if (isa<LambdaExpr>(S)) return;
        for (auto* c : S->children()) collectIds(c, a);
    }
    void function(const FunctionDecl* FD) {
        const FunctionDecl* Def = nullptr;
        if (!FD->isThisDeclarationADefinition() ) return;
        Def = FD;
        if (FD->isDependentContext() || FD->isTemplated()) return;
        if (!seenF.insert(FD).second) return;
        if (!inRoot(FD->getLocation())) return;
        FnState st; F = &st;
        json::Object o = calleeInfo(FD);
        o["file"] = fileOf(FD->getLocation()); o["line"] = lineOf(FD->getLocation());
        o["end"] = lineOf(FD->getEndLoc());
        o["full"] = FD->getQualifiedNameAsString();
        { std::string s; llvm::raw_string_ostream os(s); FD->getNameForDiagnostic(os, PP, true); o["disp"] = os.str(); }
        if (auto* M = dyn_cast<CXXMethodDecl>(FD)) {
            json::Array ov; for (auto* b : M->overridden_methods()) ov.push_back(did(b)); o["ovr"] = std::move(ov);
            if (isa<CXXConstructorDecl>(M)) o["kind"] = "ctor"; else if (isa<CXXDestructorDecl>(M)) o["kind"] = "dtor"; else o["kind"] = "method";
            if (auto* K = dyn_cast<CXXConstructorDecl>(M)) { if (K->isCopyConstructor()) o["copy"] = true; if (K->isMoveConstructor()) o["move"] = true; if (K->isDelegatingConstructor()) o["deleg"] = true; }
            if (M->isCopyAssignmentOperator()) o["copyasg"] = true; if (M->isMoveAssignmentOperator()) o["moveasg"] = true;
            o["clsid"] = did(M->getParent());
        } else o["kind"] = "func";
        o["access"] = FD->getAccess() == AS_public || FD->getAccess() == AS_none ? "public" : FD->getAccess() == AS_private ? "private" : "protected";
        if (FD->isConstexpr()) o["constexpr"] = true;
        if (auto* P = FD->getTemplateInstantiationPattern()) { o["pat"] = lineOf(P->getLocation()); o["inst"] = true; }
        json::Array ps; for (auto* P : FD->parameters()) { var(P); ps.push_back(did(P)); } o["params"] = std::move(ps);
        if (const Stmt* Body = FD->getBody()) {
            CFG::BuildOptions BO; BO.setAllAlwaysAdd(); BO.AddImplicitDtors = true; BO.AddInitializers = true; BO.AddTemporaryDtors = true; BO.AddEHEdges = false;
            BO.AddCXXDefaultInitExprInCtors = true; BO.AddLifetime = false; BO.PruneTriviallyFalseEdges = true; BO.AddCXXNewAllocator = false;
            if (auto cfg = CFG::buildCFG(FD, const_cast<Stmt*>(Body), &C, BO)) {
                json::Array bl;
                for (auto* B : *cfg) {
                    json::Object b; b["id"] = (int64_t)B->getBlockID(); json::Array el;
                    for (auto& E : *B) {
                        if (auto S = E.getAs<CFGStmt>()) el.push_back(node(S->getStmt()));
                        else if (auto I = E.getAs<CFGInitializer>()) {
                            auto* X = I->getInitializer(); json::Object q; q["x"] = "init"; q["l"] = lineOf(X->getSourceLocation()); q["e"] = node(X->getInit()); q["written"] = X->isWritten();
                            if (X->isAnyMemberInitializer()) { q["f"] = X->getAnyMember()->getNameAsString(); q["d"] = did(X->getAnyMember()); }
                            else if (X->isBaseInitializer()) q["base"] = ty(QualType(X->getBaseClass(), 0)); else q["deleg"] = true;
                            el.push_back(std::move(q)); }
                        else if (auto D = E.getAs<CFGAutomaticObjDtor>()) { var(D->getVarDecl()); json::Object q; q["x"] = "dtor"; q["d"] = did(D->getVarDecl()); q["l"] = lineOf(D->getTriggerStmt() ? D->getTriggerStmt()->getEndLoc() : FD->getEndLoc()); q["t"] = ty(D->getVarDecl()->getType()); el.push_back(std::move(q)); }
                        else if (auto D = E.getAs<CFGTemporaryDtor>()) { json::Object q; q["x"] = "tdtor"; q["e"] = node(D->getBindTemporaryExpr()); el.push_back(std::move(q)); }
                        else if (auto D = E.getAs<CFGMemberDtor>()) { json::Object q; q["x"] = "mdtor"; q["f"] = D->getFieldDecl()->getNameAsString(); el.push_back(std::move(q)); }
                        else if (auto D = E.getAs<CFGDeleteDtor>()) { json::Object q; q["x"] = "ddtor"; el.push_back(std::move(q)); }
                    }
                    b["e"] = std::move(el);
                    if (auto* T = B->getTerminatorStmt()) { b["tk"] = T->getStmtClassName(); b["tn"] = node(T); if (B->getTerminator().isTemporaryDtorsBranch()) b["ttmp"] = true; if (B->getTerminator().isVirtualBaseBranch()) b["tvb"] = true; if (auto* TC = B->getTerminatorCondition()) b["tc"] = node(TC); }
                    if (auto* L = B->getLabel()) { b["lk"] = L->getStmtClassName(); b["ln"] = node(L); }
                    if (B->hasNoReturnElement()) b["nr"] = true;
                    if (auto* LT = B->getLoopTarget()) b["loop"] = node(LT);
                    json::Array su; for (auto& s : B->succs()) { if (auto* R = s.getReachableBlock()) su.push_back((int64_t)R->getBlockID()); else su.push_back(nullptr); }
                    b["s"] = std::move(su);
                    bl.push_back(std::move(b));
                }
                o["blocks"] = std::move(bl); o["entry"] = (int64_t)cfg->getEntry().getBlockID(); o["exit"] = (int64_t)cfg->getExit().getBlockID();
            }
        }
        o["nodes"] = std::move(st.nodes); o["vars"] = std::move(st.vars);
        F = nullptr;
        funcs.push_back(std::move(o));
    }
    bool VisitFunctionDecl(FunctionDecl* FD) { if (FD->isThisDeclarationADefinition()) function(FD); return true; }
    bool VisitLambdaExpr(LambdaExpr* L) {
        if (auto* M = L->getCallOperator()) { function(M); if (auto* T = M->getDescribedFunctionTemplate()) for (auto* s : T->specializations()) function(s); }
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* R) {
        if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isTemplated()) return true;
        SourceLocation RL = R->getLocation();
        if (auto* CS = dyn_cast<ClassTemplateSpecializationDecl>(R)) if (!CS->isExplicitSpecialization()) RL = CS->getSpecializedTemplate()->getTemplatedDecl()->getLocation();
        if (!inRoot(RL) || !seenR.insert(R).second) return true;
        json::Object o; o["qn"] = recName(R, *this); o["id"] = did(R); o["t"] = ty(C.getRecordType(R)); o["file"] = fileOf(RL); o["line"] = lineOf(RL);
        if (R->isLambda()) o["lambda"] = true; if (R->isUnion()) o["union"] = true; if (R->isAggregate()) o["aggr"] = true;
        json::Array fs; for (auto* f : R->fields()) { json::Object q; q["n"] = f->getNameAsString(); q["t"] = ty(f->getType()); q["d"] = did(f); q["l"] = lineOf(f->getLocation()); if (f->isMutable()) q["mutable"] = true; if (f->hasInClassInitializer()) q["init"] = true;
            q["access"] = f->getAccess() == AS_public ? "public" : f->getAccess() == AS_private ? "private" : "protected"; fs.push_back(std::move(q)); }
        o["fields"] = std::move(fs);
        json::Array bs; for (auto& b : R->bases()) if (auto* BR = b.getType()->getAsCXXRecordDecl()) bs.push_back(json::Object{{"qn", recName(BR, *this)}, {"t", ty(b.getType())}, {"id", did(BR)}}); o["bases"] = std::move(bs);
        json::Array ms; for (auto* m : R->methods()) { json::Object q = calleeInfo(m); q["access"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_private ? "private" : "protected"; q["line"] = lineOf(m->getLocation());
            if (m->isDeleted()) q["deleted"] = true; if (m->isPureVirtual()) q["pure"] = true; if (m->isUserProvided()) q["user"] = true;
            if (auto* K = dyn_cast<CXXConstructorDecl>(m)) { q["kind"] = "ctor"; if (K->isCopyConstructor()) q["copy"] = true; if (K->isMoveConstructor()) q["move"] = true; } else if (isa<CXXDestructorDecl>(m)) q["kind"] = "dtor"; else q["kind"] = "method";
            if (m->isCopyAssignmentOperator()) q["copyasg"] = true; if (m->isMoveAssignmentOperator()) q["moveasg"] = true; 
            json::Array ov; for (auto* b : m->overridden_methods()) ov.push_back(did(b)); q["ovr"] = std::move(ov);
            ms.push_back(std::move(q)); }
        o["methods"] = std::move(ms);
        auto sm = [&](const char* n, bool decl, bool user, bool needs) { o[n] = json::Array{decl, user, needs}; };
        sm("copyctor", R->hasUserDeclaredCopyConstructor(), R->hasSimpleCopyConstructor(), R->needsImplicitCopyConstructor());
        sm("copyas", R->hasUserDeclaredCopyAssignment(), R->hasSimpleCopyAssignment(), R->needsImplicitCopyAssignment());
        sm("movector", R->hasUserDeclaredMoveConstructor(), R->hasSimpleMoveConstructor(), R->needsImplicitMoveConstructor());
        sm("moveas", R->hasUserDeclaredMoveAssignment(), R->hasSimpleMoveAssignment(), R->needsImplicitMoveAssignment());
        o["userdtor"] = R->hasUserDeclaredDestructor();
        records.push_back(std::move(o));
        return true;
    }
    bool VisitEnumDecl(EnumDecl* E) {
        if (!E->isThisDeclarationADefinition() || E->isDependentType() || !inRoot(E->getLocation()) || !seenE.insert(E).second) return true;
        json::Object o; o["qn"] = qn(E); o["file"] = fileOf(E->getLocation()); o["line"] = lineOf(E->getLocation()); json::Array a;
        for (auto* c : E->enumerators()) a.push_back(json::Object{{"n", c->getNameAsString()}, {"v", apv(APValue(c->getInitVal()))}, {"l", lineOf(c->getLocation())}});
        o["e"] = std::move(a); o["u"] = ty(E->getIntegerType()); enums.push_back(std::move(o)); return true;
    }
    bool VisitVarDecl(VarDecl* V) {
        if (V->isLocalVarDeclOrParm() && !V->isStaticLocal() && !V->isConstexpr()) return true;
        if (isa<ParmVarDecl>(V) || !V->isThisDeclarationADefinition() || V->isTemplated() || V->getType()->isDependentType() || !inRoot(V->getLocation()) || !seenV.insert(V).second) return true;
        json::Object o; o["qn"] = qn(V); o["n"] = V->getNameAsString(); o["t"] = ty(V->getType()); o["file"] = fileOf(V->getLocation()); o["line"] = lineOf(V->getLocation()); o["constexpr"] = V->isConstexpr();
        o["const"] = V->getType().isConstQualified();
        if (V->getInit() && !V->getInit()->isValueDependent()) { if (auto* A = V->evaluateValue()) { auto x = apv(*A); o["v"] = std::move(x); } }
        { FnState st; F = &st; if (V->getInit()) { int n = node(V->getInit()); o["init"] = n; o["nodes"] = std::move(st.nodes); o["vars"] = std::move(st.vars);} F = nullptr; }
        globals.push_back(std::move(o)); return true;
    }
};
struct Consumer : ASTConsumer {
    void HandleTranslationUnit(ASTContext& C) override {
        Exporter X(C); X.TraverseDecl(C.getTranslationUnitDecl());
        json::Object top; top["errors"] = (int64_t)C.getDiagnostics().getClient()->getNumErrors();
        top["funcs"] = std::move(X.funcs); top["records"] = std::move(X.records); top["enums"] = std::move(X.enums); top["globals"] = std::move(X.globals); top["types"] = std::move(X.types);
        std::error_code ec; llvm::raw_fd_ostream os(Out, ec); os << json::Value(std::move(top)); 
    }
};
struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Consumer>(); }
};
}
int main(int argc, const char** argv) {
    auto P = tooling::CommonOptionsParser::create(argc, argv, Cat);
    if (!P) { llvm::errs() << llvm::toString(P.takeError()); return 2; }
    tooling::ClangTool T(P->getCompilations(), P->getSourcePathList());
    return T.run(tooling::newFrontendActionFactory<Action>().get());
}
