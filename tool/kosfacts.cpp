// kosfacts: exports the resolved program (types, CFGs, expressions) of C translation units as JSON.
// Usage: kosfacts OUTDIR FILE... -- FLAGS
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Path.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::string OutDir;
static std::string RepoPrefix = "/repo/";

namespace {

class Exporter {
public:
    ASTContext                      &Ctx;
    SourceManager                   &SM;
    std::vector<std::string>         Types;
    std::map<std::string, unsigned>  TypeIdx;
    json::Array                      Functions;
    json::Object                     Records;
    json::Object                     Enums;
    json::Array                      Globals;
    json::Object                     Decls; // prototypes
    std::map<const VarDecl *, int>   StaticIds;

    explicit Exporter(ASTContext &C) : Ctx(C), SM(C.getSourceManager()) {}

    unsigned typeId(QualType T) {
        std::string S = T.isNull() ? std::string("?") : T.getCanonicalType().getAsString();
        auto It = TypeIdx.find(S);
        if (It != TypeIdx.end())
            return It->second;
        unsigned Id = Types.size();
        Types.push_back(S);
        TypeIdx[S] = Id;
        return Id;
    }

    // Prefers the name the source uses (typedef names such as KOS_OBJ_ID survive)
    unsigned sugarTypeId(QualType T) {
        std::string S = T.isNull() ? std::string("?") : T.getUnqualifiedType().getAsString();
        auto It = TypeIdx.find(S);
        if (It != TypeIdx.end())
            return It->second;
        unsigned Id = Types.size();
        Types.push_back(S);
        TypeIdx[S] = Id;
        return Id;
    }

    std::string fileOf(SourceLocation L) {
        PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L));
        if (P.isInvalid())
            return "?";
        std::string F = P.getFilename();
        llvm::SmallString<256> Abs(F);
        SM.getFileManager().makeAbsolutePath(Abs);
        llvm::sys::path::remove_dots(Abs, true);
        F = std::string(Abs);
        if (F.compare(0, RepoPrefix.size(), RepoPrefix) == 0)
            F = F.substr(RepoPrefix.size());
        return F;
    }

    int lineOf(SourceLocation L) {
        PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L));
        return P.isInvalid() ? 0 : (int)P.getLine();
    }

    bool inRepo(SourceLocation L) {
        std::string F = fileOf(L);
        return ! F.empty() && F[0] != '/' && F[0] != '?' && F[0] != '<';
    }

    std::string macroOf(SourceLocation L) {
        if (! L.isMacroID())
            return "";
        // outermost macro
        SourceLocation Cur = L;
        std::string Name;
        while (Cur.isMacroID()) {
            if (SM.isMacroArgExpansion(Cur)) {
                Cur = SM.getImmediateSpellingLoc(Cur);
                continue;
            }
            Name = Lexer::getImmediateMacroName(Cur, SM, Ctx.getLangOpts()).str();
            break;
        }
        return Name;
    }

    std::string funcKey(const FunctionDecl *FD) {
        if (FD->getStorageClass() == SC_Static || ! FD->isExternallyVisible()) {
            const FunctionDecl *Def = FD;
            if (FD->hasBody(Def)) {}
            return fileOf(Def->getLocation()) + ":" + FD->getNameAsString();
        }
        return FD->getNameAsString();
    }

    std::string recName(const RecordDecl *RD) {
        if (! RD->getName().empty())
            return RD->getNameAsString();
        if (const TypedefNameDecl *TD = RD->getTypedefNameForAnonDecl())
            return TD->getNameAsString();
        return "anon@" + fileOf(RD->getLocation()) + ":" + std::to_string(lineOf(RD->getLocation()));
    }

    json::Value apv(const APValue &V) {
        if (V.isInt()) {
            const llvm::APSInt &I = V.getInt();
            if (I.isUnsigned() ? I.getActiveBits() <= 63 : I.getSignificantBits() <= 64)
                return json::Value(json::Object{{"i", (int64_t)I.getExtValue()}});
            llvm::SmallString<40> S;
            I.toString(S, 10);
            return json::Value(json::Object{{"I", std::string(S)}});
        }
        if (V.isFloat()) {
            llvm::SmallString<40> S;
            V.getFloat().toString(S);
            return json::Value(json::Object{{"f", std::string(S)}});
        }
        if (V.isLValue()) {
            const APValue::LValueBase B = V.getLValueBase();
            int64_t Off = V.getLValueOffset().getQuantity();
            if (B.isNull())
                return json::Value(json::Object{{"i", Off}});
            if (const ValueDecl *VD = B.dyn_cast<const ValueDecl *>()) {
                std::string N = VD->getNameAsString();
                if (const FunctionDecl *FD = dyn_cast<FunctionDecl>(VD))
                    N = funcKey(FD);
                return json::Value(json::Object{{"g", N}, {"off", Off}});
            }
            if (const Expr *E = B.dyn_cast<const Expr *>()) {
                if (const StringLiteral *SL = dyn_cast<StringLiteral>(E)) {
                    if (SL->getCharByteWidth() == 1)
                        return json::Value(json::Object{{"s", json::fixUTF8(SL->getBytes())}, {"off", Off}});
                }
            }
            return json::Value(json::Object{{"g", "?"}, {"off", Off}});
        }
        if (V.isStruct()) {
            json::Array A;
            for (unsigned i = 0; i < V.getStructNumFields(); i++)
                A.push_back(apv(V.getStructField(i)));
            return json::Value(json::Object{{"st", std::move(A)}});
        }
        if (V.isUnion())
            return json::Value(json::Object{{"un", apv(V.getUnionValue())},
                                            {"uf", V.getUnionField() ? V.getUnionField()->getNameAsString() : ""}});
        if (V.isArray()) {
            json::Array A;
            unsigned N = V.getArrayInitializedElts();
            for (unsigned i = 0; i < N; i++)
                A.push_back(apv(V.getArrayInitializedElt(i)));
            json::Object O{{"ar", std::move(A)}, {"n", (int64_t)V.getArraySize()}};
            if (V.hasArrayFiller())
                O["fill"] = apv(V.getArrayFiller());
            return json::Value(std::move(O));
        }
        return json::Value(nullptr);
    }
};

class FuncExporter {
public:
    Exporter                       &X;
    ASTContext                     &Ctx;
    const FunctionDecl             *FD;
    json::Array                     Nodes;
    std::map<const Stmt *, int>     Ids;
    std::map<const VarDecl *, int>  VarIds;
    json::Array                     Vars;

    FuncExporter(Exporter &x, const FunctionDecl *fd) : X(x), Ctx(x.Ctx), FD(fd) {}

    int varId(const VarDecl *VD) {
        auto It = VarIds.find(VD);
        if (It != VarIds.end())
            return It->second;
        int Id = (int)Vars.size();
        VarIds[VD] = Id;
        std::string Kind = isa<ParmVarDecl>(VD) ? "param" : VD->isStaticLocal() ? "static" :
                           VD->isLocalVarDecl() ? "local" : "global";
        Vars.push_back(json::Object{{"n", VD->getNameAsString()},
                                    {"t", (int64_t)X.sugarTypeId(VD->getType())},
                                    {"ct", (int64_t)X.typeId(VD->getType())},
                                    {"k", Kind},
                                    {"l", X.lineOf(VD->getLocation())}});
        return Id;
    }

    static const Stmt *strip(const Stmt *S) {
        for (;;) {
            if (! S)
                return S;
            if (const ParenExpr *P = dyn_cast<ParenExpr>(S)) { S = P->getSubExpr(); continue; }
            if (const ConstantExpr *P = dyn_cast<ConstantExpr>(S)) { S = P->getSubExpr(); continue; }
            if (const ImplicitCastExpr *C = dyn_cast<ImplicitCastExpr>(S)) {
                switch (C->getCastKind()) {
                    case CK_NoOp: case CK_FunctionToPointerDecay: case CK_BuiltinFnToFnPtr:
                        S = C->getSubExpr(); continue;
                    default: break;
                }
            }
            if (const GenericSelectionExpr *G = dyn_cast<GenericSelectionExpr>(S)) { S = G->getResultExpr(); continue; }
            if (const UnaryOperator *U = dyn_cast<UnaryOperator>(S))
                if (U->getOpcode() == UO_Extension) { S = U->getSubExpr(); continue; }
            return S;
        }
    }

    int node(const Stmt *S0) {
        const Stmt *S = strip(S0);
        if (! S)
            return -1;
        auto It = Ids.find(S);
        if (It != Ids.end())
            return It->second;
        int Id = (int)Nodes.size();
        Ids[S] = Id;
        Nodes.push_back(nullptr);

        json::Object O;
        json::Array  Ch;
        O["l"] = X.lineOf(S->getBeginLoc());
        std::string M = X.macroOf(S->getBeginLoc());
        if (! M.empty())
            O["m"] = M;
        std::string K;

        if (const Expr *E = dyn_cast<Expr>(S)) {
            O["t"] = (int64_t)X.typeId(E->getType());
            O["st"] = (int64_t)X.sugarTypeId(E->getType());
            if (! E->isValueDependent() && ! isa<InitListExpr>(E) && ! isa<StringLiteral>(E) && E->isPRValue() && ! E->getType()->isVoidType()) {
                Expr::EvalResult R;
                if (E->EvaluateAsRValue(R, Ctx) && ! R.HasSideEffects) {
                    json::Value V = X.apv(R.Val);
                    O["v"] = std::move(V);
                }
            }
        }

        if (const DeclRefExpr *D = dyn_cast<DeclRefExpr>(S)) {
            K = "ref";
            if (const VarDecl *VD = dyn_cast<VarDecl>(D->getDecl())) {
                O["var"] = varId(VD);
                if (VD->hasGlobalStorage() && ! VD->isStaticLocal())
                    O["g"] = VD->getNameAsString();
            }
            else if (const FunctionDecl *F = dyn_cast<FunctionDecl>(D->getDecl()))
                O["fn"] = X.funcKey(F);
            else if (const EnumConstantDecl *EC = dyn_cast<EnumConstantDecl>(D->getDecl()))
                O["ec"] = EC->getNameAsString();
        }
        else if (isa<IntegerLiteral>(S) || isa<CharacterLiteral>(S) || isa<FloatingLiteral>(S))
            K = "lit";
        else if (const StringLiteral *SL = dyn_cast<StringLiteral>(S)) {
            K = "str";
            if (SL->getCharByteWidth() == 1)
                O["s"] = json::fixUTF8(SL->getBytes());
        }
        else if (const CallExpr *C = dyn_cast<CallExpr>(S)) {
            K = "call";
            if (const FunctionDecl *F = C->getDirectCallee()) {
                O["fn"] = X.funcKey(F);
                Ch.push_back(-1);
            }
            else
                Ch.push_back(node(C->getCallee()));
            for (const Expr *A : C->arguments())
                Ch.push_back(node(A));
        }
        else if (const MemberExpr *ME = dyn_cast<MemberExpr>(S)) {
            K = "mem";
            O["f"] = ME->getMemberDecl()->getNameAsString();
            if (const FieldDecl *F = dyn_cast<FieldDecl>(ME->getMemberDecl()))
                O["r"] = X.recName(F->getParent());
            if (ME->isArrow())
                O["a"] = 1;
            Ch.push_back(node(ME->getBase()));
        }
        else if (const ArraySubscriptExpr *A = dyn_cast<ArraySubscriptExpr>(S)) {
            K = "sub";
            Ch.push_back(node(A->getBase()));
            Ch.push_back(node(A->getIdx()));
        }
        else if (const CastExpr *C = dyn_cast<CastExpr>(S)) {
            switch (C->getCastKind()) {
                case CK_LValueToRValue: K = "load"; break;
                case CK_ArrayToPointerDecay: K = "decay"; break;
                default: K = "cast"; O["ck"] = C->getCastKindName(); break;
            }
            if (isa<ExplicitCastExpr>(C))
                O["x"] = 1;
            Ch.push_back(node(C->getSubExpr()));
        }
        else if (const CompoundAssignOperator *B = dyn_cast<CompoundAssignOperator>(S)) {
            K = "casg";
            O["op"] = B->getOpcodeStr().str();
            Ch.push_back(node(B->getLHS()));
            Ch.push_back(node(B->getRHS()));
        }
        else if (const BinaryOperator *B = dyn_cast<BinaryOperator>(S)) {
            K = B->isAssignmentOp() ? "asg" : "bin";
            O["op"] = B->getOpcodeStr().str();
            Ch.push_back(node(B->getLHS()));
            Ch.push_back(node(B->getRHS()));
        }
        else if (const UnaryOperator *U = dyn_cast<UnaryOperator>(S)) {
            K = "un";
            O["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
            if (U->isPostfix())
                O["post"] = 1;
            Ch.push_back(node(U->getSubExpr()));
        }
        else if (const ConditionalOperator *C = dyn_cast<ConditionalOperator>(S)) {
            K = "cond";
            Ch.push_back(node(C->getCond()));
            Ch.push_back(node(C->getTrueExpr()));
            Ch.push_back(node(C->getFalseExpr()));
        }
        else if (const UnaryExprOrTypeTraitExpr *U = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
            K = "sizeof";
            QualType T = U->isArgumentType() ? U->getArgumentType() : U->getArgumentExpr()->getType();
            O["of"] = (int64_t)X.sugarTypeId(T);
        }
        else if (const AtomicExpr *A = dyn_cast<AtomicExpr>(S)) {
            K = "atomic";
            O["op"] = A->getOpAsString().str();
            for (const Stmt *Sub : A->children())
                Ch.push_back(node(Sub));
        }
        else if (const InitListExpr *I = dyn_cast<InitListExpr>(S)) {
            K = "init";
            const InitListExpr *Sem = I->isSemanticForm() ? I : I->getSemanticForm();
            if (! Sem) Sem = I;
            for (const Expr *E : Sem->inits())
                Ch.push_back(node(E));
        }
        else if (const DeclStmt *DS = dyn_cast<DeclStmt>(S)) {
            K = "decl";
            json::Array DV;
            for (const Decl *D : DS->decls())
                if (const VarDecl *VD = dyn_cast<VarDecl>(D)) {
                    DV.push_back(json::Array{varId(VD), VD->hasInit() ? node(VD->getInit()) : -1});
                }
            O["dv"] = std::move(DV);
        }
        else if (const ReturnStmt *R = dyn_cast<ReturnStmt>(S)) {
            K = "ret";
            if (R->getRetValue())
                Ch.push_back(node(R->getRetValue()));
        }
        else if (isa<ImplicitValueInitExpr>(S))
            K = "zinit";
        else {
            K = S->getStmtClassName();
            if (isa<Expr>(S))
                for (const Stmt *Sub : S->children())
                    Ch.push_back(node(Sub));
        }
        O["k"] = K;
        if (! Ch.empty())
            O["c"] = std::move(Ch);
        Nodes[Id] = std::move(O);
        return Id;
    }

    json::Value label(const Stmt *L) {
        if (const CaseStmt *C = dyn_cast<CaseStmt>(L)) {
            json::Array A;
            const CaseStmt *Cur = C;
            Expr::EvalResult R, R2;
            json::Object O{{"k", "case"}, {"l", X.lineOf(Cur->getBeginLoc())}};
            if (Cur->getLHS()->EvaluateAsInt(R, Ctx))
                O["lo"] = (int64_t)R.Val.getInt().getExtValue();
            if (const DeclRefExpr *D = dyn_cast<DeclRefExpr>(Cur->getLHS()->IgnoreParenImpCasts()))
                O["ec"] = D->getDecl()->getNameAsString();
            if (Cur->getRHS() && Cur->getRHS()->EvaluateAsInt(R2, Ctx))
                O["hi"] = (int64_t)R2.Val.getInt().getExtValue();
            return json::Value(std::move(O));
        }
        if (isa<DefaultStmt>(L))
            return json::Value(json::Object{{"k", "default"}, {"l", X.lineOf(L->getBeginLoc())}});
        if (const LabelStmt *LS = dyn_cast<LabelStmt>(L))
            return json::Value(json::Object{{"k", "label"}, {"n", LS->getName()}, {"l", X.lineOf(L->getBeginLoc())}});
        return nullptr;
    }

    void run() {
        CFG::BuildOptions BO;
        BO.setAllAlwaysAdd();
        BO.PruneTriviallyFalseEdges = true;
        std::unique_ptr<CFG> G = CFG::buildCFG(FD, FD->getBody(), &Ctx, BO);

        json::Array Params;
        for (const ParmVarDecl *P : FD->parameters())
            Params.push_back(varId(P));

        json::Array Blocks;
        int Entry = -1, Exit = -1;
        if (G) {
            Entry = G->getEntry().getBlockID();
            Exit  = G->getExit().getBlockID();
            for (const CFGBlock *B : *G) {
                json::Object BOb;
                BOb["id"] = (int64_t)B->getBlockID();
                json::Array El;
                int Last = -2;
                for (const CFGElement &E : *B)
                    if (auto CS = E.getAs<CFGStmt>()) {
                        int N = node(CS->getStmt());
                        if (N != Last)
                            El.push_back(N);
                        Last = N;
                    }
                BOb["e"] = std::move(El);
                json::Array Su;
                for (auto I = B->succ_begin(); I != B->succ_end(); ++I) {
                    const CFGBlock *T = I->getReachableBlock();
                    if (T)
                        Su.push_back((int64_t)T->getBlockID());
                    else
                        Su.push_back(-1);
                }
                BOb["s"] = std::move(Su);
                if (const Stmt *T = B->getTerminatorStmt()) {
                    BOb["tk"] = T->getStmtClassName();
                    BOb["tl"] = X.lineOf(T->getBeginLoc());
                    const Stmt *Cond = B->getTerminatorCondition();
                    if (Cond)
                        BOb["tc"] = node(Cond);
                    if (const Expr *LC = B->getLastCondition())
                        BOb["lc"] = node(LC);
                    if (const BinaryOperator *BOp = dyn_cast<BinaryOperator>(T))
{
                        BOb["top"] = BOp->getOpcodeStr().str();
                        BOb["tn"] = node(BOp);
                    }
                }
                if (B->hasNoReturnElement())
                    BOb["nr"] = 1;
                if (const Stmt *L = B->getLabel())
                    BOb["lab"] = label(L);
                if (const Stmt *LT = B->getLoopTarget())
                    BOb["loop"] = X.lineOf(LT->getBeginLoc());
                Blocks.push_back(std::move(BOb));
            }
        }
        std::string Name = FD->getNameAsString();
        json::Object F{{"name", Name},
                       {"key", X.funcKey(FD)},
                       {"file", X.fileOf(FD->getLocation())},
                       {"line", X.lineOf(FD->getLocation())},
                       {"endline", X.lineOf(FD->getEndLoc())},
                       {"static", FD->getStorageClass() == SC_Static},
                       {"ret", (int64_t)X.sugarTypeId(FD->getReturnType())},
                       {"params", std::move(Params)},
                       {"entry", Entry},
                       {"exit", Exit},
                       {"blocks", std::move(Blocks)},
                       {"variadic", FD->isVariadic()}};
        // Static local initialisers
        json::Array SL;
        for (auto &P : VarIds)
            if (P.first->isStaticLocal() && P.first->hasInit()) {
                json::Object SO{{"var", P.second}};
                if (const APValue *V = P.first->evaluateValue())
                    SO["v"] = X.apv(*V);
                SO["n"] = node(P.first->getInit());
                SL.push_back(std::move(SO));
            }
        F["statics"] = std::move(SL);
        F["nodes"] = std::move(Nodes);
        F["vars"] = std::move(Vars);
        X.Functions.push_back(std::move(F));
    }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
    Exporter &X;
    explicit Visitor(Exporter &x) : X(x) {}

    bool VisitFunctionDecl(FunctionDecl *FD) {
        if (FD->doesThisDeclarationHaveABody() && X.inRepo(FD->getLocation())) {
            FuncExporter FE(X, FD);
            FE.run();
        }
        else if (! FD->doesThisDeclarationHaveABody()) {
            json::Array PT;
            for (const ParmVarDecl *P : FD->parameters())
                PT.push_back((int64_t)X.sugarTypeId(P->getType()));
            X.Decls[X.funcKey(FD)] = json::Object{{"ret", (int64_t)X.sugarTypeId(FD->getReturnType())},
                                                  {"params", std::move(PT)},
                                                  {"variadic", FD->isVariadic()},
                                                  {"file", X.fileOf(FD->getLocation())}};
        }
        return true;
    }
    bool VisitRecordDecl(RecordDecl *RD) {
        if (! RD->isCompleteDefinition() || ! X.inRepo(RD->getLocation()))
            return true;
        json::Array Fs;
        for (const FieldDecl *F : RD->fields()) {
            json::Object FO{{"n", F->getNameAsString()},
                            {"t", (int64_t)X.sugarTypeId(F->getType())},
                            {"ct", (int64_t)X.typeId(F->getType())},
                            {"l", X.lineOf(F->getLocation())}};
            QualType T = F->getType();
            while (const ArrayType *AT = X.Ctx.getAsArrayType(T)) {
                FO["arr"] = 1;
                if (const ConstantArrayType *CA = dyn_cast<ConstantArrayType>(AT))
                    FO["arrn"] = (int64_t)CA->getSize().getZExtValue();
                T = AT->getElementType();
            }
            if (const AtomicType *A = T->getAs<AtomicType>()) {
                FO["atomic"] = 1;
                T = A->getValueType();
            }
            if (const RecordType *RT = T->getAs<RecordType>())
                FO["rec"] = X.recName(RT->getDecl());
            FO["et"] = (int64_t)X.sugarTypeId(T);
            FO["vol"] = T.isVolatileQualified() ? 1 : 0;
            Fs.push_back(std::move(FO));
        }
        X.Records[X.recName(RD)] = json::Object{{"fields", std::move(Fs)},
                                                {"file", X.fileOf(RD->getLocation())},
                                                {"union", RD->isUnion()},
                                                {"line", X.lineOf(RD->getLocation())}};
        return true;
    }
    bool VisitEnumDecl(EnumDecl *ED) {
        if (! ED->isCompleteDefinition() || ! X.inRepo(ED->getLocation()))
            return true;
        json::Object V;
        json::Array  Order;
        for (const EnumConstantDecl *C : ED->enumerators()) {
            V[C->getNameAsString()] = (int64_t)C->getInitVal().getExtValue();
            Order.push_back(C->getNameAsString());
        }
        std::string N = ED->getNameAsString();
        if (N.empty())
            if (const TypedefNameDecl *TD = ED->getTypedefNameForAnonDecl())
                N = TD->getNameAsString();
        if (N.empty())
            N = "anon@" + X.fileOf(ED->getLocation()) + ":" + std::to_string(X.lineOf(ED->getLocation()));
        X.Enums[N] = json::Object{{"v", std::move(V)}, {"o", std::move(Order)}, {"file", X.fileOf(ED->getLocation())}};
        return true;
    }
    bool VisitVarDecl(VarDecl *VD) {
        if (VD->isFileVarDecl() && X.inRepo(VD->getLocation())) {
            json::Object G{{"n", VD->getNameAsString()},
                           {"t", (int64_t)X.sugarTypeId(VD->getType())},
                           {"file", X.fileOf(VD->getLocation())},
                           {"l", X.lineOf(VD->getLocation())},
                           {"static", VD->getStorageClass() == SC_Static},
                           {"const", VD->getType().isConstQualified()},
                           {"def", VD->isThisDeclarationADefinition() != VarDecl::DeclarationOnly}};
            if (VD->hasInit())
                if (const APValue *V = VD->evaluateValue())
                    G["v"] = X.apv(*V);
            X.Globals.push_back(std::move(G));
        }
        return true;
    }
};

class Consumer : public ASTConsumer {
public:
    std::string In;
    explicit Consumer(std::string in) : In(in) {}
    void HandleTranslationUnit(ASTContext &C) override {
        Exporter X(C);
        Visitor V(X);
        V.TraverseDecl(C.getTranslationUnitDecl());
        std::string Base = In;
        for (char &Ch : Base)
            if (Ch == '/')
                Ch = '_';
        std::error_code EC;
        llvm::raw_fd_ostream OS(OutDir + "/" + Base + ".json", EC);
        json::Array T;
        for (auto &S : X.Types)
            T.push_back(S);
        json::Object O{{"file", In}, {"types", std::move(T)}, {"functions", std::move(X.Functions)},
                       {"records", std::move(X.Records)}, {"enums", std::move(X.Enums)},
                       {"globals", std::move(X.Globals)}, {"decls", std::move(X.Decls)},
                       {"errors", C.getDiagnostics().hasErrorOccurred()}};
        OS << json::Value(std::move(O)) << "\n";
    }
};

class Action : public ASTFrontendAction {
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef InFile) override {
        return std::make_unique<Consumer>(InFile.str());
    }
};

class Factory : public tooling::FrontendActionFactory {
public:
    std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
};
}

int main(int argc, const char **argv) {
    std::vector<std::string> Files, Flags;
    int i = 1;
    OutDir = argv[i++];
    RepoPrefix = argv[i++];
    for (; i < argc && std::string(argv[i]) != "--"; i++)
        Files.push_back(argv[i]);
    for (i++; i < argc; i++)
        Flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase DB(".", Flags);
    tooling::ClangTool Tool(DB, Files);
    Tool.setPrintErrorMessage(true);
    Factory F;
    return Tool.run(&F);
}
