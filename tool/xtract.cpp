// xtract: dump the type-checked program (clang AST + per-function CFG) of one translation unit as JSON.
// Only functions defined below the root directory given by -root are dumped, template instantiations
// and lambda bodies included.  Every CFG element refers to expression nodes by number.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
using namespace clang::tooling;
namespace json = llvm::json;

static llvm::cl::OptionCategory Cat("xtract");
static llvm::cl::opt<std::string> OutFile("o", llvm::cl::cat(Cat), llvm::cl::Required);
static llvm::cl::opt<std::string> Root("root", llvm::cl::cat(Cat), llvm::cl::init("/repo/src/candy"));

namespace {

struct Dumper {
    ASTContext& Ctx;
    SourceManager& SM;
    ASTNameGenerator NG;
    PrintingPolicy PP;
    json::Array Funcs, Globals, Records;
    std::set<const Decl*> Done;
    std::set<std::string> DoneIds;
    std::map<const Decl*, int> DeclIds;
    std::map<const CXXMethodDecl*, std::string> LambdaIds;

    Dumper(ASTContext& C) : Ctx(C), SM(C.getSourceManager()), NG(C), PP(C.getLangOpts()) {
        PP.SuppressTagKeyword = true; PP.Bool = true; PP.TerseOutput = true;
    }

    std::string fileOf(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        if (L.isInvalid()) return "";
        auto F = SM.getFilename(L);
        if (const FileEntry* FE = SM.getFileEntryForID(SM.getFileID(L))) {
            auto R = FE->tryGetRealPathName();
            if (!R.empty()) return R.str();
        }
        return F.str();
    }
    unsigned lineOf(SourceLocation L) { L = SM.getExpansionLoc(L); return L.isInvalid() ? 0 : SM.getSpellingLineNumber(L); }
    unsigned colOf(SourceLocation L) { L = SM.getExpansionLoc(L); return L.isInvalid() ? 0 : SM.getSpellingColumnNumber(L); }
    bool inRoot(SourceLocation L) { auto F = fileOf(L); return F.rfind(Root, 0) == 0; }

    std::string typeStr(QualType T) { return T.isNull() ? "" : T.getCanonicalType().getAsString(PP); }

    std::string qname(const NamedDecl* D) { // qualified, without template arguments
        std::string S; llvm::raw_string_ostream OS(S);
        std::vector<std::string> parts;
        const DeclContext* DC = D->getDeclContext();
        parts.push_back(D->getNameAsString());
        if (auto* FD = dyn_cast<FunctionDecl>(D)) { // strip template args printed in ctor names
            if (auto* CD = dyn_cast<CXXConstructorDecl>(FD)) parts[0] = CD->getParent()->getNameAsString();
            else if (auto* DD = dyn_cast<CXXDestructorDecl>(FD)) parts[0] = "~" + DD->getParent()->getNameAsString();
        }
        while (DC && !DC->isTranslationUnit()) {
            if (auto* ND = dyn_cast<NamespaceDecl>(DC)) {
                if (!ND->isInline() && !ND->isAnonymousNamespace()) parts.push_back(ND->getNameAsString());
            } else if (auto* RD = dyn_cast<RecordDecl>(DC)) {
                parts.push_back(RD->getNameAsString().empty() ? (cast<CXXRecordDecl>(RD)->isLambda() ? "$lambda" : "$anon") : RD->getNameAsString());
            } else if (auto* ED = dyn_cast<EnumDecl>(DC)) {
                if (ED->isScoped()) parts.push_back(ED->getNameAsString());
            } else if (auto* FD = dyn_cast<FunctionDecl>(DC)) {
                parts.push_back(FD->getNameAsString() + "()");
            }
            DC = DC->getParent();
        }
        for (size_t i = parts.size(); i-- > 0;) { OS << parts[i]; if (i) OS << "::"; }
        return OS.str();
    }

    std::string funcId(const FunctionDecl* FD) {
        FD = FD->getCanonicalDecl();
        if (auto* MD = dyn_cast<CXXMethodDecl>(FD)) {
            if (MD->getParent()->isLambda()) {
                std::string outer;
                const DeclContext* DC = MD->getParent()->getDeclContext();
                while (DC && !isa<FunctionDecl>(DC)) DC = DC->getParent();
                if (DC) outer = funcId(cast<FunctionDecl>(DC));
                auto B = MD->getParent()->getBeginLoc();
                return outer + "$L" + std::to_string(lineOf(B)) + ":" + std::to_string(colOf(B)) + (MD->isConst() ? "" : "m") + "#" + typeStr(MD->getType());
            }
        }
        std::string N = NG.getName(FD);
        if (auto* CD = dyn_cast<CXXConstructorDecl>(FD)) {
            auto V = NG.getAllManglings(CD);
            if (!V.empty()) N = V.back();
        }
        if ((!FD->isExternallyVisible() && !isa<CXXMethodDecl>(FD)) || FD->isMain()) N = fileOf(FD->getLocation()) + "|" + N;
        return N;
    }

    int declId(const Decl* D) {
        D = D->getCanonicalDecl();
        auto It = DeclIds.find(D);
        if (It != DeclIds.end()) return It->second;
        int I = DeclIds.size() + 1;
        DeclIds[D] = I;
        return I;
    }

    // ---- per function state
    std::map<const Stmt*, int> Ids;
    json::Array Exprs;
    std::vector<const LambdaExpr*> PendingLambdas;

    const Stmt* strip(const Stmt* S) {
        while (S) {
            if (auto* E = dyn_cast<ParenExpr>(S)) S = E->getSubExpr();
            else if (auto* E = dyn_cast<ExprWithCleanups>(S)) S = E->getSubExpr();
            else if (auto* E = dyn_cast<ConstantExpr>(S)) S = E->getSubExpr();
            else if (auto* E = dyn_cast<MaterializeTemporaryExpr>(S)) S = E->getSubExpr();
            else if (auto* E = dyn_cast<CXXBindTemporaryExpr>(S)) S = E->getSubExpr();
            else if (auto* E = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) S = E->getReplacement();
            else if (auto* E = dyn_cast<CXXDefaultArgExpr>(S)) S = E->getExpr();
            else if (auto* E = dyn_cast<CXXDefaultInitExpr>(S)) S = E->getExpr();
            else if (auto* E = dyn_cast<CXXStdInitializerListExpr>(S)) S = E->getSubExpr();
            else if (auto* E = dyn_cast<OpaqueValueExpr>(S)) { if (E->getSourceExpr()) S = E->getSourceExpr(); else return S; }
            else if (auto* E = dyn_cast<ImplicitCastExpr>(S)) {
                switch (E->getCastKind()) {
                    case CK_IntegralCast: case CK_IntegralToBoolean: case CK_PointerToBoolean:
                    case CK_FloatingToIntegral: case CK_IntegralToFloating: case CK_FloatingCast: case CK_FloatingToBoolean:
                    case CK_LValueToRValue:
                        return S;
                    default: S = E->getSubExpr();
                }
            }
            else return S;
        }
        return S;
    }

    int id(const Stmt* S0) {
        if (!S0) return -1;
        const Stmt* S = strip(S0);
        if (!S) return -1;
        auto It = Ids.find(S);
        if (It != Ids.end()) { Ids[S0] = It->second; return It->second; }
        int I = Exprs.size();
        Exprs.push_back(nullptr);
        Ids[S] = I; Ids[S0] = I;
        json::Object O = node(S);
        Exprs[I] = json::Value(std::move(O));
        return I;
    }

    json::Array ids(llvm::ArrayRef<const Expr*> L) { json::Array A; for (auto* E : L) A.push_back(id(E)); return A; }
    template <class R> json::Array idsR(R&& L) { json::Array A; for (auto* E : L) A.push_back(id(E)); return A; }

    void callee(json::Object& O, const FunctionDecl* FD) {
        O["fid"] = funcId(FD);
        O["fn"] = qname(FD);
        if (auto* MD = dyn_cast<CXXMethodDecl>(FD)) {
            if (MD->isVirtual()) O["virt"] = true;
            if (MD->isConst()) O["const"] = true;
        }
        if (FD->isNoReturn()) O["noret"] = true;
        json::Array PT; for (auto* P : FD->parameters()) PT.push_back(typeStr(P->getType()));
        O["pt"] = std::move(PT);
    }

    json::Object node(const Stmt* S) {
        json::Object O;
        O["l"] = lineOf(S->getBeginLoc());
        auto* Ex = dyn_cast<Expr>(S);
        if (Ex) {
            O["t"] = typeStr(Ex->getType());
            if (!Ex->isValueDependent() && !Ex->isTypeDependent() && Ex->getType()->isIntegralOrEnumerationType() && Ex->isPRValue()) {
                Expr::EvalResult R;
                if (Ex->EvaluateAsInt(R, Ctx, Expr::SE_NoSideEffects)) O["cv"] = llvm::toString(R.Val.getInt(), 10);
            }
        }
        if (auto* E = dyn_cast<DeclRefExpr>(S)) {
            auto* D = E->getDecl();
            O["k"] = "ref"; O["n"] = D->getNameAsString(); O["d"] = declId(D);
            if (auto* FD = dyn_cast<FunctionDecl>(D)) { O["dk"] = "fn"; O["fid"] = funcId(FD); O["fn"] = qname(FD); }
            else if (isa<EnumConstantDecl>(D)) { O["dk"] = "enum"; O["q"] = qname(D); }
            else if (isa<ParmVarDecl>(D)) { O["dk"] = "param"; }
            else if (auto* VD = dyn_cast<VarDecl>(D)) {
                if (VD->hasGlobalStorage()) { O["dk"] = "global"; O["q"] = qname(VD); if (VD->isStaticLocal()) O["slocal"] = true; }
                else O["dk"] = "var";
            }
            else { O["dk"] = "other"; O["q"] = qname(D); }
            if (E->refersToEnclosingVariableOrCapture()) O["cap"] = true;
        }
        else if (auto* E = dyn_cast<MemberExpr>(S)) {
            O["k"] = "mem"; O["b"] = id(E->getBase()); O["f"] = qname(E->getMemberDecl()); O["n"] = E->getMemberDecl()->getNameAsString();
            if (E->isArrow()) O["arrow"] = true;
            if (auto* VD = dyn_cast<VarDecl>(E->getMemberDecl())) { O["static"] = true; O["d"] = declId(VD); }
            if (isa<CXXMethodDecl>(E->getMemberDecl())) O["method"] = true;
        }
        else if (auto* E = dyn_cast<CXXOperatorCallExpr>(S)) {
            O["k"] = "call"; O["opcall"] = getOperatorSpelling(E->getOperator());
            const FunctionDecl* FD = E->getDirectCallee();
            std::vector<const Expr*> A(E->arg_begin(), E->arg_end());
            if (FD) {
                callee(O, FD);
                if (isa<CXXMethodDecl>(FD) && cast<CXXMethodDecl>(FD)->isInstance() && !A.empty()) { O["obj"] = id(A[0]); A.erase(A.begin()); }
            }
            O["args"] = ids(A);
        }
        else if (auto* E = dyn_cast<CXXMemberCallExpr>(S)) {
            O["k"] = "call";
            if (auto* MD = E->getMethodDecl()) {
                callee(O, MD);
                if (auto* ME = dyn_cast<MemberExpr>(E->getCallee()->IgnoreParens())) if (ME->hasQualifier()) O["virt"] = false;
            }
            else O["ce"] = id(E->getCallee());
            O["obj"] = id(E->getImplicitObjectArgument());
            O["args"] = idsR(E->arguments());
        }
        else if (auto* E = dyn_cast<CallExpr>(S)) {
            O["k"] = "call";
            if (auto* FD = E->getDirectCallee()) callee(O, FD); else O["ce"] = id(E->getCallee());
            O["args"] = idsR(E->arguments());
        }
        else if (auto* E = dyn_cast<CXXConstructExpr>(S)) {
            auto* CD = E->getConstructor();
            O["k"] = "ctor"; O["cls"] = qname(CD->getParent()); callee(O, CD);
            O["args"] = idsR(E->arguments());
            if (CD->isCopyConstructor()) O["copy"] = true;
            if (CD->isMoveConstructor()) O["move"] = true;
        }
        else if (auto* E = dyn_cast<CXXInheritedCtorInitExpr>(S)) { O["k"] = "ctor"; callee(O, E->getConstructor()); O["args"] = json::Array(); }
        else if (auto* E = dyn_cast<CompoundAssignOperator>(S)) { O["k"] = "bin"; O["op"] = E->getOpcodeStr().str(); O["a"] = id(E->getLHS()); O["b"] = id(E->getRHS()); }
        else if (auto* E = dyn_cast<BinaryOperator>(S)) { O["k"] = "bin"; O["op"] = E->getOpcodeStr().str(); O["a"] = id(E->getLHS()); O["b"] = id(E->getRHS()); }
        else if (auto* E = dyn_cast<UnaryOperator>(S)) { O["k"] = "un"; O["op"] = std::string(E->isPostfix() ? "p" : "") + UnaryOperator::getOpcodeStr(E->getOpcode()).str(); O["a"] = id(E->getSubExpr()); }
        else if (auto* E = dyn_cast<CastExpr>(S)) { O["k"] = "cast"; O["ck"] = E->getCastKindName(); O["a"] = id(E->getSubExpr()); if (isa<ExplicitCastExpr>(E)) O["explicit"] = true; }
        else if (auto* E = dyn_cast<IntegerLiteral>(S)) { O["k"] = "lit"; O["v"] = llvm::toString(E->getValue(), 10, E->getType()->isSignedIntegerType()); }
        else if (auto* E = dyn_cast<CXXBoolLiteralExpr>(S)) { O["k"] = "lit"; O["v"] = E->getValue() ? "1" : "0"; }
        else if (auto* E = dyn_cast<CharacterLiteral>(S)) { O["k"] = "lit"; O["v"] = std::to_string(E->getValue()); O["chr"] = true; }
        else if (auto* E = dyn_cast<FloatingLiteral>(S)) { O["k"] = "flit"; O["v"] = E->getValueAsApproximateDouble(); }
        else if (auto* E = dyn_cast<StringLiteral>(S)) { O["k"] = "str"; if (E->getCharByteWidth() == 1 && json::isUTF8(E->getBytes())) O["v"] = E->getBytes(); else O["v"] = "?"; }
        else if (isa<CXXNullPtrLiteralExpr>(S) || isa<GNUNullExpr>(S)) { O["k"] = "null"; }
        else if (auto* E = dyn_cast<ArraySubscriptExpr>(S)) { O["k"] = "idx"; O["a"] = id(E->getBase()); O["b"] = id(E->getIdx()); }
        else if (auto* E = dyn_cast<AbstractConditionalOperator>(S)) { O["k"] = "cond"; O["c"] = id(E->getCond()); O["a"] = id(E->getTrueExpr()); O["b"] = id(E->getFalseExpr()); }
        else if (auto* E = dyn_cast<LambdaExpr>(S)) {
            O["k"] = "lambda"; O["fid"] = funcId(E->getCallOperator());
            json::Array C;
            auto InitIt = E->capture_init_begin();
            for (auto& Cap : E->captures()) {
                json::Object CO;
                if (Cap.capturesThis()) CO["this"] = true;
                else if (Cap.capturesVariable()) {
                    CO["d"] = declId(Cap.getCapturedVar()); CO["n"] = Cap.getCapturedVar()->getNameAsString();
                    CO["byref"] = Cap.getCaptureKind() == LCK_ByRef;
                    if (*InitIt) CO["init"] = id(*InitIt);
                }
                C.push_back(std::move(CO));
                ++InitIt;
            }
            O["caps"] = std::move(C);
            PendingLambdas.push_back(E);
        }
        else if (auto* E = dyn_cast<CXXNewExpr>(S)) {
            O["k"] = "new"; O["nt"] = typeStr(E->getAllocatedType());
            json::Array P; for (unsigned i = 0; i < E->getNumPlacementArgs(); i++) P.push_back(id(E->getPlacementArg(i)));
            O["place"] = std::move(P);
            if (E->getInitializer()) O["init"] = id(E->getInitializer());
            if (E->isArray()) { O["arr"] = true; if (auto SZ = E->getArraySize()) O["size"] = id(*SZ); }
        }
        else if (auto* E = dyn_cast<CXXDeleteExpr>(S)) { O["k"] = "delete"; O["a"] = id(E->getArgument()); if (E->isArrayForm()) O["arr"] = true; }
        else if (auto* E = dyn_cast<CXXThrowExpr>(S)) { O["k"] = "throw"; O["a"] = id(E->getSubExpr()); }
        else if (auto* E = dyn_cast<ReturnStmt>(S)) { O["k"] = "ret"; O["a"] = id(E->getRetValue()); }
        else if (auto* E = dyn_cast<DeclStmt>(S)) {
            O["k"] = "decl"; json::Array V;
            for (auto* D : E->decls()) if (auto* VD = dyn_cast<VarDecl>(D)) {
                json::Object VO; VO["d"] = declId(VD); VO["n"] = VD->getNameAsString(); VO["t"] = typeStr(VD->getType());
                VO["ref"] = VD->getType()->isReferenceType();
                if (VD->getInit()) VO["init"] = id(VD->getInit());
                if (VD->isStaticLocal()) { VO["static"] = true; VO["q"] = qname(VD); }
                V.push_back(std::move(VO));
            }
            O["vars"] = std::move(V);
        }
        else if (isa<CXXThisExpr>(S)) { O["k"] = "this"; }
        else if (auto* E = dyn_cast<InitListExpr>(S)) { O["k"] = "ilist"; O["args"] = idsR(E->inits()); }
        else if (auto* E = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) { O["k"] = "sizeof"; if (E->isArgumentType()) O["at"] = typeStr(E->getArgumentType()); else O["at"] = typeStr(E->getArgumentExpr()->getType()); }
        else if (isa<ImplicitValueInitExpr>(S) || isa<CXXScalarValueInitExpr>(S)) { O["k"] = "zero"; }
        else if (auto* E = dyn_cast<CXXTypeidExpr>(S)) { (void)E; O["k"] = "other"; O["cls"] = "typeid"; O["ch"] = json::Array(); }
        else {
            O["k"] = "other"; O["cls"] = S->getStmtClassName();
            json::Array C;
            if (Ex) for (auto* Ch : S->children()) if (Ch) C.push_back(id(Ch));
            O["ch"] = std::move(C);
        }
        return O;
    }

    json::Object declSig(const FunctionDecl* FD) {
        json::Object O;
        O["id"] = funcId(FD); O["q"] = qname(FD);
        { std::string S; llvm::raw_string_ostream OS(S); FD->getNameForDiagnostic(OS, PP, true); O["pretty"] = OS.str(); }
        O["file"] = fileOf(FD->getLocation()); O["line"] = lineOf(FD->getLocation());
        O["ret"] = typeStr(FD->getReturnType());
        json::Array P;
        for (auto* V : FD->parameters()) { json::Object VO; VO["d"] = declId(V); VO["n"] = V->getNameAsString(); VO["t"] = typeStr(V->getType()); VO["ref"] = V->getType()->isReferenceType(); P.push_back(std::move(VO)); }
        O["params"] = std::move(P);
        if (auto* MD = dyn_cast<CXXMethodDecl>(FD)) {
            O["cls"] = qname(MD->getParent());
            O["static"] = MD->isStatic();
            O["virt"] = MD->isVirtual();
            O["const"] = MD->isConst();
            const char* Acc = MD->getAccess() == AS_private ? "private" : MD->getAccess() == AS_protected ? "protected" : "public"; O["access"] = Acc;
            json::Array OV; for (auto* M : MD->overridden_methods()) OV.push_back(funcId(M)); O["over"] = std::move(OV);
            if (isa<CXXConstructorDecl>(MD)) O["kind"] = "ctor"; else if (isa<CXXDestructorDecl>(MD)) O["kind"] = "dtor";
            if (MD->getParent()->isLambda()) O["lambda"] = true;
            if (MD->isDefaulted()) O["defaulted"] = true;
        }
        if (FD->isMain()) O["main"] = true;
        return O;
    }

    void func(const FunctionDecl* FD) {
        const FunctionDecl* Def = nullptr;
        if (!FD->hasBody(Def) || !Def) return;
        FD = Def;
        if (FD->isDependentContext()) return;
        if (!Done.insert(FD->getCanonicalDecl()).second) return;
        if (!inRoot(FD->getLocation()) && !inRoot(FD->getBody()->getBeginLoc())) return;
        std::string Id = funcId(FD);
        if (!DoneIds.insert(Id).second) return;

        auto SavedIds = std::move(Ids); auto SavedExprs = std::move(Exprs); auto SavedL = std::move(PendingLambdas);
        Ids.clear(); Exprs = json::Array(); PendingLambdas.clear();

        CFG::BuildOptions BO;
        BO.setAllAlwaysAdd();
        BO.AddInitializers = true; BO.AddImplicitDtors = true; BO.AddCXXDefaultInitExprInCtors = true;
        BO.PruneTriviallyFalseEdges = true;
        std::unique_ptr<CFG> G = CFG::buildCFG(FD, FD->getBody(), &Ctx, BO);
        json::Object O = declSig(FD);
        O["eline"] = lineOf(FD->getBodyRBrace());
        if (!G) { O["nocfg"] = true; }
        else {
            O["entry"] = (int)G->getEntry().getBlockID(); O["exit"] = (int)G->getExit().getBlockID();
            json::Array Bs;
            for (auto* B : *G) {
                json::Object BOb; BOb["b"] = (int)B->getBlockID();
                json::Array El;
                for (auto& E : *B) {
                    switch (E.getKind()) {
                        case CFGElement::Statement: case CFGElement::Constructor: case CFGElement::CXXRecordTypedCall: {
                            const Stmt* S = E.castAs<CFGStmt>().getStmt();
                            if (strip(S) != S && Ids.count(strip(S))) break; // transparent wrapper of an element already listed
                            El.push_back(id(S));
                            break;
                        }
                        case CFGElement::Initializer: {
                            auto* I = E.castAs<CFGInitializer>().getInitializer();
                            json::Object N; N["k"] = "init"; N["l"] = lineOf(I->getSourceLocation());
                            if (I->isAnyMemberInitializer()) { N["f"] = qname(I->getAnyMember()); N["n"] = I->getAnyMember()->getNameAsString(); }
                            else if (I->isDelegatingInitializer()) N["deleg"] = true;
                            else N["base"] = true;
                            N["a"] = id(I->getInit());
                            N["written"] = I->isWritten();
                            int K = Exprs.size(); Exprs.push_back(std::move(N)); El.push_back(K);
                            break;
                        }
                        case CFGElement::AutomaticObjectDtor: {
                            auto D = E.castAs<CFGAutomaticObjDtor>();
                            json::Object N; N["k"] = "dtor"; N["l"] = lineOf(D.getTriggerStmt()->getEndLoc());
                            N["d"] = declId(D.getVarDecl()); N["n"] = D.getVarDecl()->getNameAsString(); N["t"] = typeStr(D.getVarDecl()->getType());
                            if (auto* DD = D.getDestructorDecl(Ctx)) N["fid"] = funcId(DD);
                            int K = Exprs.size(); Exprs.push_back(std::move(N)); El.push_back(K);
                            break;
                        }
                        default: break;
                    }
                }
                json::Array Su;
                for (auto S : B->succs()) { const CFGBlock* SB = S.getReachableBlock(); Su.push_back(SB ? (int)SB->getBlockID() : -1); }
                BOb["s"] = std::move(Su);
                if (const Stmt* T = B->getTerminatorStmt()) {
                    BOb["term"] = T->getStmtClassName();
                    BOb["tl"] = lineOf(T->getBeginLoc());
                    if (const Stmt* C = B->getTerminatorCondition()) {
                        // in a short-circuit chain the block decides its own operand, not the whole expression
                        if (auto* E = dyn_cast<Expr>(C))
                            if (auto* LO = dyn_cast<BinaryOperator>(E->IgnoreParenImpCasts()))
                                if (LO->isLogicalOp() && !isa<SwitchStmt>(T))
                                    if (const Stmt* L = B->getLastCondition()) C = L;
                        BOb["cond"] = id(C);
                    }
                    if (auto* BO2 = dyn_cast<BinaryOperator>(T)) { BOb["top"] = BO2->getOpcodeStr().str(); BOb["tid"] = id(BO2); }
                }
                if (const Stmt* L = B->getLabel()) {
                    if (auto* CS = dyn_cast<CaseStmt>(L)) {
                        json::Array V; Expr::EvalResult R;
                        if (CS->getLHS()->EvaluateAsInt(R, Ctx)) V.push_back(llvm::toString(R.Val.getInt(), 10));
                        BOb["case"] = std::move(V);
                    } else if (isa<DefaultStmt>(L)) BOb["default"] = true;
                    else if (isa<CXXCatchStmt>(L)) { BOb["catch"] = typeStr(cast<CXXCatchStmt>(L)->getCaughtType()); }
                }
                if (B->hasNoReturnElement()) BOb["noret"] = true;
                BOb["e"] = std::move(El);
                Bs.push_back(std::move(BOb));
            }
            O["blocks"] = std::move(Bs);
        }
        O["x"] = std::move(Exprs);
        Funcs.push_back(std::move(O));
        auto L = std::move(PendingLambdas);
        Ids = std::move(SavedIds); Exprs = std::move(SavedExprs); PendingLambdas = std::move(SavedL);
        for (auto* LE : L) func(LE->getCallOperator());
    }

    void global(const VarDecl* VD) {
        if (!VD->hasGlobalStorage() || VD->isStaticLocal() || !inRoot(VD->getLocation())) return;
        if (VD->getType()->isDependentType() || VD->getDeclContext()->isDependentContext()) return;
        json::Object O; O["q"] = qname(VD); O["t"] = typeStr(VD->getType()); O["file"] = fileOf(VD->getLocation()); O["line"] = lineOf(VD->getLocation());
        O["const"] = VD->getType().isConstQualified();
        O["def"] = VD->isThisDeclarationADefinition() != VarDecl::DeclarationOnly;
        O["tls"] = VD->getTLSKind() != VarDecl::TLS_None;
        Ids.clear(); Exprs = json::Array(); PendingLambdas.clear();
        if (VD->getInit() && O["def"].getAsBoolean().value_or(false)) {
            O["init"] = id(VD->getInit());
        }
        O["x"] = std::move(Exprs); Exprs = json::Array();
        auto L = std::move(PendingLambdas); PendingLambdas.clear(); Ids.clear();
        Globals.push_back(std::move(O));
        for (auto* LE : L) func(LE->getCallOperator());
    }

    void record(const CXXRecordDecl* RD) {
        if (!RD->isThisDeclarationADefinition() || RD->isDependentContext() || RD->isLambda() || !inRoot(RD->getLocation())) return;
        json::Object O; O["q"] = qname(RD); O["file"] = fileOf(RD->getLocation()); O["line"] = lineOf(RD->getLocation());
        { std::string S; llvm::raw_string_ostream OS(S); RD->getNameForDiagnostic(OS, PP, true); O["pretty"] = OS.str(); }
        json::Array F; for (auto* FD : RD->fields()) { json::Object FO; FO["n"] = FD->getNameAsString(); FO["q"] = qname(FD); FO["t"] = typeStr(FD->getType()); FO["mut"] = FD->isMutable();
            const char* Acc = FD->getAccess() == AS_private ? "private" : FD->getAccess() == AS_protected ? "protected" : "public"; FO["access"] = Acc; FO["init"] = FD->hasInClassInitializer(); F.push_back(std::move(FO)); }
        O["fields"] = std::move(F);
        json::Array B; for (auto& BS : RD->bases()) if (auto* BR = BS.getType()->getAsCXXRecordDecl()) B.push_back(qname(BR));
        O["bases"] = std::move(B);
        json::Array Fr; for (auto* FD : RD->friends()) { if (FD->getFriendType()) Fr.push_back(typeStr(FD->getFriendType()->getType())); }
        O["friends"] = std::move(Fr);
        json::Array M; for (auto* MD : RD->methods()) if (!MD->isImplicit()) M.push_back(declSig(MD)); O["methods"] = std::move(M);
        Records.push_back(std::move(O));
    }
};

class V : public RecursiveASTVisitor<V> {
public:
    Dumper& D;
    V(Dumper& D) : D(D) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool VisitFunctionDecl(FunctionDecl* FD) { if (FD->doesThisDeclarationHaveABody()) D.func(FD); return true; }
    bool VisitVarDecl(VarDecl* VD) { D.global(VD); return true; }
    bool VisitCXXRecordDecl(CXXRecordDecl* RD) { D.record(RD); return true; }
};

class C : public ASTConsumer {
public:
    void HandleTranslationUnit(ASTContext& Ctx) override {
        Dumper D(Ctx);
        V Vis(D);
        Vis.TraverseDecl(Ctx.getTranslationUnitDecl());
        json::Object O;
        O["functions"] = std::move(D.Funcs); O["globals"] = std::move(D.Globals); O["records"] = std::move(D.Records);
        O["errors"] = (int)Ctx.getDiagnostics().getClient()->getNumErrors();
        std::error_code EC; llvm::raw_fd_ostream OS(OutFile, EC);
        OS << json::Value(std::move(O));
    }
};

class A : public ASTFrontendAction {
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, StringRef) override { return std::make_unique<C>(); }
};
}

int main(int argc, const char** argv) {
    auto P = CommonOptionsParser::create(argc, argv, Cat);
    if (!P) { llvm::errs() << llvm::toString(P.takeError()); return 2; }
    ClangTool T(P->getCompilations(), P->getSourcePathList());
    return T.run(newFrontendActionFactory<A>().get());
}
