// vx: exports the resolved program of one translation unit (functions, records,
// enums and globals that are defined in the repository) as JSON lines.
//   <kind>\t<key>\t<json>
// It decides nothing; the analyses in /verif/sa read its output.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Attr.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Preprocessor.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>

using namespace clang;
namespace json = llvm::json;
typedef json::Object O;
typedef json::Array A;
typedef json::Value V;

static std::string Root = "/repo/";
static std::string ExtraRoot;

static std::string fix(llvm::StringRef s) { return json::isUTF8(s) ? s.str() : json::fixUTF8(s); }

static int64_t apv(const llvm::APSInt& v) {
    return v.isRepresentableByInt64() ? v.getExtValue() : (int64_t)v.getLimitedValue((uint64_t)INT64_MAX);
}

struct Exporter {
    ASTContext& C;
    SourceManager& SM;
    llvm::raw_ostream& os;
    PrintingPolicy pp;
    std::set<std::string> done;
    // per function
    std::map<const ValueDecl*, int> locals;
    std::map<std::string, int> tyidx;
    A tytab;
    A ldecls;
    std::vector<const FunctionDecl*> pendingLambdas;

    Exporter(ASTContext& c, llvm::raw_ostream& o) : C(c), SM(c.getSourceManager()), os(o), pp(c.getLangOpts()) {
        pp.SuppressTagKeyword = true;
        pp.Bool = true;
    }

    std::string fileOf(SourceLocation l) {
        l = SM.getExpansionLoc(l);
        if (l.isInvalid()) return "";
        auto fe = SM.getFileEntryRefForID(SM.getFileID(l));
        if (!fe) return "";
        llvm::StringRef rp = fe->getFileEntry().tryGetRealPathName();
        std::string p = rp.empty() ? fe->getName().str() : rp.str();
        return p;
    }
    bool inRepo(SourceLocation l) {
        std::string f = fileOf(l);
        if (f.compare(0, Root.size(), Root) == 0) return true;
        return !ExtraRoot.empty() && f.compare(0, ExtraRoot.size(), ExtraRoot) == 0;
    }
    int line(SourceLocation l) { return (int)SM.getExpansionLineNumber(l); }

    std::string usr(const Decl* D) {
        llvm::SmallString<128> b;
        // declaration and definition may spell top-level const differently
        if (auto* FD = dyn_cast<FunctionDecl>(D)) D = FD->getCanonicalDecl();
        if (index::generateUSRForDecl(D, b)) return "";
        return fix(b.str());
    }
    std::string qn(const NamedDecl* D) {
        std::string s;
        llvm::raw_string_ostream o(s);
        D->printQualifiedName(o, pp);
        return fix(o.str());
    }
    std::string ty(QualType T) {
        if (T.isNull()) return "";
        return fix(T.getCanonicalType().getAsString(pp));
    }
    int tyi(QualType T) {
        std::string s = ty(T);
        auto it = tyidx.find(s);
        if (it != tyidx.end()) return it->second;
        int n = (int)tyidx.size();
        tyidx[s] = n;
        tytab.push_back(s);
        return n;
    }
    int local(const ValueDecl* D) {
        D = cast<ValueDecl>(D->getCanonicalDecl());
        auto it = locals.find(D);
        if (it != locals.end()) return it->second;
        int n = (int)locals.size();
        locals[D] = n;
        return n;
    }

    O node(const char* k, const Stmt* S) {
        O o;
        o["k"] = k;
        o["l"] = line(S->getBeginLoc());
        if (auto* E = dyn_cast<Expr>(S)) o["t"] = tyi(E->getType());
        return o;
    }

    V arr(const Stmt* const* b, const Stmt* const* e);

    static std::string fltstr(const llvm::APFloat& f) {
        llvm::SmallString<40> s;
        f.toString(s, 0, 0);
        return s.str().str();
    }

    O calleeInfo(const FunctionDecl* FD) {
        O o;
        o["q"] = qn(FD);
        o["u"] = usr(FD);
        if (FD->isNoReturn() || FD->hasAttr<NoReturnAttr>() || FD->hasAttr<AnalyzerNoReturnAttr>()) o["nr"] = true;
        if (auto* M = dyn_cast<CXXMethodDecl>(FD)) {
            o["cls"] = qn(M->getParent());
            if (M->isConst()) o["const"] = true;
            if (M->isStatic()) o["static"] = true;
            if (M->isVirtual()) o["virt"] = true;
        }
        if (FD->isOverloadedOperator()) o["op"] = getOperatorSpelling(FD->getOverloadedOperator());
        if (FD->getBuiltinID()) o["builtin"] = true;
        A pt;
        for (auto* p : FD->parameters()) pt.push_back(tyi(p->getType()));
        o["pt"] = std::move(pt);
        return o;
    }

    V ex(const Expr* E) {
        if (!E) return nullptr;
        // peel
        if (auto* X = dyn_cast<ParenExpr>(E)) return ex(X->getSubExpr());
        if (auto* X = dyn_cast<FullExpr>(E)) return ex(X->getSubExpr());
        if (auto* X = dyn_cast<MaterializeTemporaryExpr>(E)) return ex(X->getSubExpr());
        if (auto* X = dyn_cast<CXXBindTemporaryExpr>(E)) return ex(X->getSubExpr());
        if (auto* X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return ex(X->getReplacement());
        if (auto* X = dyn_cast<CXXDefaultArgExpr>(E)) {
            V v = ex(X->getExpr());
            if (auto* o = v.getAsObject()) (*o)["dflt"] = true;
            return v;
        }
        if (auto* X = dyn_cast<CXXDefaultInitExpr>(E)) return ex(X->getExpr());
        if (auto* X = dyn_cast<OpaqueValueExpr>(E)) return ex(X->getSourceExpr());
        if (auto* X = dyn_cast<GenericSelectionExpr>(E)) return ex(X->getResultExpr());
        if (auto* X = dyn_cast<ChooseExpr>(E)) return ex(X->getChosenSubExpr());
        if (auto* X = dyn_cast<UnaryOperator>(E))
            if (X->getOpcode() == UO_Extension || X->getOpcode() == UO_Plus) return ex(X->getSubExpr());
        if (auto* X = dyn_cast<CXXStdInitializerListExpr>(E)) return ex(X->getSubExpr());
        if (auto* X = dyn_cast<CXXConstructExpr>(E)) {
            // elide copies / moves of the same class
            if (X->getConstructor()->isCopyOrMoveConstructor() && X->getNumArgs() >= 1 && !isa<CXXTemporaryObjectExpr>(X)) {
                V v = ex(X->getArg(0));
                if (auto* o = v.getAsObject()) (*o)["copy"] = true;
                return v;
            }
        }
        if (auto* X = dyn_cast<CastExpr>(E)) return castx(X);

        V r = ex1(E);
        return r;
    }

    V castx(const CastExpr* X) {
        const Expr* S = X->getSubExpr();
        bool expl = isa<ExplicitCastExpr>(X);
        switch (X->getCastKind()) {
        case CK_IntegralToFloating:
        case CK_FloatingToIntegral: {
            O o = node("cast", X);
            o["ck"] = X->getCastKind() == CK_IntegralToFloating ? "i2f" : "f2i";
            if (expl) o["x"] = true;
            o["e"] = ex(S);
            return o;
        }
        case CK_IntegralCast:
        case CK_FloatingCast: {
            if (!expl && C.getTypeSize(S->getType()) <= C.getTypeSize(X->getType())) return ex(S);
            O o = node("cast", X);
            o["ck"] = X->getCastKind() == CK_IntegralCast ? "i2i" : "f2f";
            if (expl) o["x"] = true;
            o["e"] = ex(S);
            return o;
        }
        case CK_NullToPointer: {
            O o = node("null", X);
            return o;
        }
        case CK_PointerToBoolean:
        case CK_IntegralToBoolean:
        case CK_FloatingToBoolean: {
            O o = node("cast", X);
            o["ck"] = "2b";
            o["e"] = ex(S);
            return o;
        }
        case CK_ToVoid: {
            O o = node("cast", X);
            o["ck"] = "void";
            o["e"] = ex(S);
            return o;
        }
        case CK_Dynamic: {
            O o = node("cast", X);
            o["ck"] = "dyn";
            o["e"] = ex(S);
            return o;
        }
        case CK_BitCast: {
            if (!expl) return ex(S);
            O o = node("cast", X);
            o["ck"] = "bit";
            o["e"] = ex(S);
            return o;
        }
        default:
            return ex(S);
        }
    }

    void putcv(O& o, const Expr* E) {
        if (E->isValueDependent() || E->isTypeDependent()) return;
        QualType T = E->getType();
        if (!T->isIntegralOrEnumerationType()) return;
        Expr::EvalResult R;
        if (E->EvaluateAsInt(R, C)) {
            llvm::SmallString<32> s;
            R.Val.getInt().toString(s, 10);
            if (R.Val.getInt().isRepresentableByInt64()) o["cv"] = apv(R.Val.getInt());
        }
    }

    V ref(const ValueDecl* D, const Expr* E) {
        O o = node("ref", E);
        o["n"] = fix(D->getNameAsString());
        if (auto* EC = dyn_cast<EnumConstantDecl>(D)) {
            o["dk"] = "enum";
            o["q"] = qn(D);
            o["cv"] = apv(EC->getInitVal());
            if (auto* ED = dyn_cast<EnumDecl>(EC->getDeclContext())) o["en"] = qn(ED);
            return o;
        }
        if (auto* F = dyn_cast<FunctionDecl>(D)) {
            o["dk"] = "func";
            o["q"] = qn(F);
            o["u"] = usr(F);
            return o;
        }
        if (auto* VD = dyn_cast<VarDecl>(D)) {
            if (VD->isLocalVarDeclOrParm() ) {
                o["dk"] = isa<ParmVarDecl>(VD) ? "parm" : (VD->isStaticLocal() ? "slocal" : "local");
                o["d"] = local(VD);
                return o;
            }
            o["dk"] = "global";
            o["q"] = qn(VD);
            o["u"] = usr(VD);
            putcv(o, E);
            return o;
        }
        o["dk"] = "other";
        o["q"] = qn(D);
        return o;
    }

    V ex1(const Expr* E) {
        if (auto* X = dyn_cast<IntegerLiteral>(E)) {
            O o = node("int", E);
            // __LINE__ is spelled in scratch space: no meaning to compare
            if (X->getLocation().isMacroID() && SM.isWrittenInScratchSpace(SM.getSpellingLoc(X->getLocation()))) o["cv"] = (int64_t)0;
            else if (X->getValue().getActiveBits() <= 63) o["cv"] = (int64_t)X->getValue().getZExtValue();
            return o;
        }
        if (auto* X = dyn_cast<FloatingLiteral>(E)) {
            O o = node("flt", E);
            o["v"] = fltstr(X->getValue());
            // source spelling, so that decimal literals are exact
            SourceLocation b = SM.getSpellingLoc(X->getBeginLoc());
            bool inv = false;
            llvm::SmallString<32> buf;
            llvm::StringRef sp = Lexer::getSpelling(b, buf, SM, C.getLangOpts(), &inv);
            if (!inv) o["s"] = fix(sp);
            return o;
        }
        if (auto* X = dyn_cast<CharacterLiteral>(E)) {
            O o = node("int", E);
            o["cv"] = (int64_t)X->getValue();
            o["chr"] = true;
            return o;
        }
        if (auto* X = dyn_cast<CXXBoolLiteralExpr>(E)) {
            O o = node("int", E);
            o["cv"] = (int64_t)(X->getValue() ? 1 : 0);
            return o;
        }
        if (auto* X = dyn_cast<StringLiteral>(E)) {
            O o = node("str", E);
            if (X->isOrdinary() || X->isUTF8()) o["v"] = fix(X->getString());
            return o;
        }
        if (isa<PredefinedExpr>(E)) { O o = node("str", E); o["v"] = "__func__"; return o; }
        if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return node("null", E);
        if (isa<CXXThisExpr>(E)) return node("this", E);
        if (auto* X = dyn_cast<DeclRefExpr>(E)) return ref(X->getDecl(), E);
        if (auto* X = dyn_cast<MemberExpr>(E)) {
            const ValueDecl* M = X->getMemberDecl();
            if (isa<EnumConstantDecl>(M) || isa<VarDecl>(M)) return ref(M, E);
            O o = node("mem", E);
            o["n"] = fix(M->getNameAsString());
            o["q"] = qn(M);
            if (X->isArrow()) o["arrow"] = true;
            o["b"] = ex(X->getBase());
            return o;
        }
        if (auto* X = dyn_cast<ArraySubscriptExpr>(E)) {
            O o = node("idx", E);
            o["b"] = ex(X->getBase());
            o["i"] = ex(X->getIdx());
            return o;
        }
        if (auto* X = dyn_cast<CXXOperatorCallExpr>(E)) {
            O o = node("call", E);
            o["oper"] = getOperatorSpelling(X->getOperator());
            if (auto* FD = X->getDirectCallee()) {
                o["f"] = calleeInfo(FD);
                if (auto* M = dyn_cast<CXXMethodDecl>(FD); M && M->isInstance()) {
                    o["obj"] = ex(X->getArg(0));
                    A a;
                    for (unsigned i = 1; i < X->getNumArgs(); ++i) a.push_back(ex(X->getArg(i)));
                    o["args"] = std::move(a);
                    return o;
                }
            }
            A a;
            for (unsigned i = 0; i < X->getNumArgs(); ++i) a.push_back(ex(X->getArg(i)));
            o["args"] = std::move(a);
            return o;
        }
        if (auto* X = dyn_cast<CXXMemberCallExpr>(E)) {
            O o = node("call", E);
            if (auto* FD = X->getDirectCallee()) o["f"] = calleeInfo(FD);
            if (const Expr* ob = X->getImplicitObjectArgument()) {
                o["obj"] = ex(ob);
                if (auto* ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) {
                    if (ME->isArrow()) o["arrow"] = true;
                    if (ME->hasQualifier()) o["qualified"] = true;
                }
            }
            if (!X->getDirectCallee()) o["fe"] = ex(X->getCallee());
            A a;
            for (auto* g : X->arguments()) a.push_back(ex(g));
            o["args"] = std::move(a);
            return o;
        }
        if (auto* X = dyn_cast<CallExpr>(E)) {
            O o = node("call", E);
            if (auto* FD = X->getDirectCallee()) o["f"] = calleeInfo(FD);
            else o["fe"] = ex(X->getCallee());
            A a;
            for (auto* g : X->arguments()) a.push_back(ex(g));
            o["args"] = std::move(a);
            return o;
        }
        if (auto* X = dyn_cast<CXXConstructExpr>(E)) {
            O o = node("ctor", E);
            o["f"] = calleeInfo(X->getConstructor());
            if (X->getConstructor()->isDefaultConstructor()) o["dctor"] = true;
            if (X->getConstructor()->isCopyOrMoveConstructor()) o["cctor"] = true;
            if (X->getConstructor()->isTrivial()) o["trivial"] = true;
            A a;
            for (auto* g : X->arguments()) a.push_back(ex(g));
            o["args"] = std::move(a);
            return o;
        }
        if (auto* X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
            O o = node("ctor", E);
            o["f"] = calleeInfo(X->getConstructor());
            o["args"] = A();
            return o;
        }
        if (auto* X = dyn_cast<UnaryOperator>(E)) {
            O o = node("un", E);
            std::string op = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
            if (X->getOpcode() == UO_PostInc || X->getOpcode() == UO_PostDec) op = "p" + op;
            o["op"] = op;
            o["e"] = ex(X->getSubExpr());
            putcv(o, E);
            return o;
        }
        if (auto* X = dyn_cast<BinaryOperator>(E)) {
            O o = node(X->isAssignmentOp() ? "asg" : "bin", E);
            o["op"] = X->getOpcodeStr().str();
            o["a"] = ex(X->getLHS());
            o["b"] = ex(X->getRHS());
            if (!X->isAssignmentOp()) putcv(o, E);
            return o;
        }
        if (auto* X = dyn_cast<AbstractConditionalOperator>(E)) {
            O o = node("cond", E);
            o["c"] = ex(X->getCond());
            o["a"] = ex(X->getTrueExpr());
            o["b"] = ex(X->getFalseExpr());
            putcv(o, E);
            return o;
        }
        if (auto* X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
            O o = node("sizeof", E);
            o["of"] = tyi(X->getTypeOfArgument());
            if (X->getKind() != UETT_SizeOf) o["other"] = true;
            if (!X->isArgumentType()) o["e"] = ex(X->getArgumentExpr());
            putcv(o, E);
            return o;
        }
        if (auto* X = dyn_cast<CXXNewExpr>(E)) {
            O o = node("new", E);
            o["of"] = tyi(X->getAllocatedType());
            if (X->isArray()) o["array"] = true;
            if (X->isArray() && X->getArraySize()) o["n"] = ex(*X->getArraySize());
            if (X->getInitializer()) o["init"] = ex(X->getInitializer());
            if (X->getNumPlacementArgs()) o["placement"] = true;
            return o;
        }
        if (auto* X = dyn_cast<CXXDeleteExpr>(E)) {
            O o = node("delete", E);
            if (X->isArrayForm()) o["array"] = true;
            o["e"] = ex(X->getArgument());
            return o;
        }
        if (auto* X = dyn_cast<CXXThrowExpr>(E)) {
            O o = node("throw", E);
            if (X->getSubExpr()) o["e"] = ex(X->getSubExpr());
            return o;
        }
        if (auto* X = dyn_cast<InitListExpr>(E)) {
            const InitListExpr* S = X->isSemanticForm() ? X : X->getSemanticForm();
            if (!S) S = X;
            O o = node("init", E);
            A a;
            for (unsigned i = 0; i < S->getNumInits(); ++i) a.push_back(ex(S->getInit(i)));
            o["args"] = std::move(a);
            if (S->hasArrayFiller()) o["filler"] = true;
            if (auto* RT = S->getType()->getAs<RecordType>()) {
                A fn;
                for (auto* f : RT->getDecl()->fields()) fn.push_back(fix(f->getNameAsString()));
                o["fields"] = std::move(fn);
            }
            return o;
        }
        if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) return node("zero", E);
        if (auto* X = dyn_cast<CompoundLiteralExpr>(E)) return ex(X->getInitializer());
        if (auto* X = dyn_cast<StmtExpr>(E)) {
            O o = node("stmtexpr", E);
            o["s"] = st(X->getSubStmt());
            return o;
        }
        if (auto* X = dyn_cast<LambdaExpr>(E)) {
            O o = node("lambda", E);
            const CXXMethodDecl* M = X->getCallOperator();
            o["u"] = usr(M);
            A ps;
            for (auto* p : M->parameters()) ps.push_back(local(p));
            o["params"] = std::move(ps);
            A caps;
            unsigned ii = 0;
            for (auto& c : X->captures()) {
                O co;
                if (c.capturesVariable()) { co["d"] = local(cast<ValueDecl>(c.getCapturedVar())); co["n"] = fix(c.getCapturedVar()->getNameAsString()); }
                if (c.capturesThis()) co["this"] = true;
                co["ref"] = c.getCaptureKind() == LCK_ByRef;
                if (ii < (unsigned)X->capture_size()) {}
                ++ii;
                caps.push_back(std::move(co));
            }
            o["caps"] = std::move(caps);
            o["body"] = st(X->getBody());
            return o;
        }
        if (auto* X = dyn_cast<CXXTypeidExpr>(E)) { (void)X; return node("typeid", E); }
        if (auto* X = dyn_cast<VAArgExpr>(E)) { (void)X; return node("va_arg", E); }
        if (auto* X = dyn_cast<ArrayInitLoopExpr>(E)) return ex(X->getCommonExpr()->getSourceExpr());
        if (auto* X = dyn_cast<CXXNoexceptExpr>(E)) { O o = node("int", E); o["cv"] = (int64_t)X->getValue(); return o; }
        if (auto* X = dyn_cast<TypeTraitExpr>(E)) { O o = node("int", E); if (!X->isValueDependent()) o["cv"] = (int64_t)X->getValue(); return o; }
        O o = node("unk", E);
        o["cls"] = E->getStmtClassName();
        A a;
        for (const Stmt* c : E->children())
            if (auto* ce = dyn_cast_or_null<Expr>(c)) a.push_back(ex(ce));
        o["args"] = std::move(a);
        return o;
    }

    V vardecl(const VarDecl* D) {
        O o;
        o["d"] = local(D);
        o["n"] = fix(D->getNameAsString());
        o["t"] = tyi(D->getType());
        o["l"] = line(D->getLocation());
        if (D->isStaticLocal()) o["static"] = true;
        if (D->getInit()) o["init"] = ex(D->getInit());
        return o;
    }

    V st(const Stmt* S) {
        if (!S) return nullptr;
        if (auto* E = dyn_cast<Expr>(S)) {
            O o;
            o["k"] = "expr";
            o["l"] = line(S->getBeginLoc());
            o["e"] = ex(E);
            return o;
        }
        O o = node("", S);
        if (auto* X = dyn_cast<CompoundStmt>(S)) {
            o["k"] = "block";
            A a;
            for (auto* c : X->body()) a.push_back(st(c));
            o["b"] = std::move(a);
            o["el"] = line(X->getEndLoc());
            return o;
        }
        if (auto* X = dyn_cast<DeclStmt>(S)) {
            o["k"] = "decl";
            A a;
            for (auto* d : X->decls())
                if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(vardecl(v));
            o["v"] = std::move(a);
            return o;
        }
        if (auto* X = dyn_cast<IfStmt>(S)) {
            o["k"] = "if";
            if (X->getInit()) o["init"] = st(X->getInit());
            if (X->getConditionVariable()) o["cvar"] = vardecl(X->getConditionVariable());
            o["c"] = ex(X->getCond());
            o["a"] = st(X->getThen());
            if (X->getElse()) o["b"] = st(X->getElse());
            return o;
        }
        if (auto* X = dyn_cast<WhileStmt>(S)) {
            o["k"] = "while";
            if (X->getConditionVariable()) o["cvar"] = vardecl(X->getConditionVariable());
            o["c"] = ex(X->getCond());
            o["b"] = st(X->getBody());
            return o;
        }
        if (auto* X = dyn_cast<DoStmt>(S)) {
            o["k"] = "do";
            o["c"] = ex(X->getCond());
            o["b"] = st(X->getBody());
            return o;
        }
        if (auto* X = dyn_cast<ForStmt>(S)) {
            o["k"] = "for";
            if (X->getInit()) o["init"] = st(X->getInit());
            if (X->getCond()) o["c"] = ex(X->getCond());
            if (X->getInc()) o["inc"] = ex(X->getInc());
            o["b"] = st(X->getBody());
            return o;
        }
        if (auto* X = dyn_cast<CXXForRangeStmt>(S)) {
            o["k"] = "rangefor";
            o["v"] = vardecl(X->getLoopVariable());
            o["r"] = ex(X->getRangeInit());
            o["b"] = st(X->getBody());
            return o;
        }
        if (auto* X = dyn_cast<SwitchStmt>(S)) {
            o["k"] = "switch";
            o["c"] = ex(X->getCond());
            o["ct"] = tyi(X->getCond()->IgnoreImpCasts()->getType());
            o["b"] = st(X->getBody());
            return o;
        }
        if (auto* X = dyn_cast<CaseStmt>(S)) {
            o["k"] = "case";
            o["v"] = ex(X->getLHS());
            if (X->getRHS()) o["v2"] = ex(X->getRHS());
            o["s"] = st(X->getSubStmt());
            return o;
        }
        if (auto* X = dyn_cast<DefaultStmt>(S)) {
            o["k"] = "default";
            o["s"] = st(X->getSubStmt());
            return o;
        }
        if (isa<BreakStmt>(S)) { o["k"] = "break"; return o; }
        if (isa<ContinueStmt>(S)) { o["k"] = "continue"; return o; }
        if (auto* X = dyn_cast<ReturnStmt>(S)) {
            o["k"] = "return";
            if (X->getRetValue()) o["e"] = ex(X->getRetValue());
            return o;
        }
        if (auto* X = dyn_cast<GotoStmt>(S)) { o["k"] = "goto"; o["n"] = X->getLabel()->getName().str(); return o; }
        if (auto* X = dyn_cast<LabelStmt>(S)) { o["k"] = "label"; o["n"] = std::string(X->getName()); o["s"] = st(X->getSubStmt()); return o; }
        if (auto* X = dyn_cast<CXXTryStmt>(S)) {
            o["k"] = "try";
            o["b"] = st(X->getTryBlock());
            A a;
            for (unsigned i = 0; i < X->getNumHandlers(); ++i) {
                const CXXCatchStmt* h = X->getHandler(i);
                O c;
                if (h->getExceptionDecl()) c["v"] = vardecl(h->getExceptionDecl());
                c["b"] = st(h->getHandlerBlock());
                c["l"] = line(h->getBeginLoc());
                a.push_back(std::move(c));
            }
            o["h"] = std::move(a);
            return o;
        }
        if (isa<NullStmt>(S)) { o["k"] = "null"; return o; }
        if (auto* X = dyn_cast<AttributedStmt>(S)) return st(X->getSubStmt());
        o["k"] = "unkstmt";
        o["cls"] = S->getStmtClassName();
        return o;
    }

    void emit(const char* kind, const std::string& key, V v) {
        os << kind << '\t' << key << '\t' << v << '\n';
    }

    void function(const FunctionDecl* F) {
        if (!F->doesThisDeclarationHaveABody() && !F->isDefaulted()) return;
        if (F->isDependentContext()) return;
        if (F->isImplicit() && !isa<CXXConstructorDecl>(F)) return;
        if (!F->getBody() ) return;
        if (!inRepo(F->getLocation())) return;
        std::string u = usr(F);
        if (u.empty() || !done.insert(u).second) return;
        locals.clear(); tyidx.clear(); tytab = A();
        O o;
        o["q"] = qn(F);
        o["n"] = fix(F->getNameAsString());
        o["u"] = u;
        o["file"] = fileOf(F->getLocation());
        o["l"] = line(F->getLocation());
        o["el"] = line(F->getBody()->getEndLoc());
        o["ret"] = tyi(F->getReturnType());
        if (F->isImplicit()) o["implicit"] = true;
        if (F->getFormalLinkage() == Linkage::Internal) o["internal"] = true;
        if (F->isInAnonymousNamespace()) o["anon"] = true;
        for (auto* rd : F->redecls()) {
            std::string fn = fileOf(rd->getLocation());
            if (fn.size() > 2 && (fn.substr(fn.size() - 2) == ".h" || (fn.size() > 4 && fn.substr(fn.size() - 4) == ".hpp"))) { o["hdr"] = true; break; }
        }
        if (F->isTemplateInstantiation()) o["inst"] = true;
        if (F->isNoReturn()) o["nr"] = true;
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            o["cls"] = qn(M->getParent());
            o["clsu"] = usr(M->getParent());
            o["access"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private";
            if (M->isConst()) o["const"] = true;
            if (M->isStatic()) o["static"] = true;
            if (M->isVirtual()) o["virt"] = true;
            A ov;
            for (auto* b : M->overridden_methods()) ov.push_back(usr(b));
            if (!ov.empty()) o["overrides"] = std::move(ov);
        }
        A ps;
        for (auto* p : F->parameters()) {
            O po;
            po["d"] = local(p);
            po["n"] = fix(p->getNameAsString());
            po["t"] = tyi(p->getType());
            ps.push_back(std::move(po));
        }
        o["params"] = std::move(ps);
        if (auto* K = dyn_cast<CXXConstructorDecl>(F)) {
            o["ctor"] = true;
            if (K->isCopyOrMoveConstructor()) o["cctor"] = true;
            A in;
            for (auto* i : K->inits()) {
                O io;
                if (i->isAnyMemberInitializer()) { io["n"] = fix(i->getAnyMember()->getNameAsString()); io["q"] = qn(i->getAnyMember()); }
                else if (i->isBaseInitializer()) io["base"] = ty(QualType(i->getBaseClass(), 0));
                else io["deleg"] = true;
                if (i->isWritten()) io["written"] = true;
                io["e"] = ex(i->getInit());
                in.push_back(std::move(io));
            }
            o["inits"] = std::move(in);
        }
        if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
        o["body"] = st(F->getBody());
        o["T"] = std::move(tytab);
        emit("F", u, V(std::move(o)));
    }

    void record(const RecordDecl* R) {
        if (!R->isCompleteDefinition() || R->isDependentContext()) return;
        if (!inRepo(R->getLocation())) return;
        std::string u = usr(R);
        if (u.empty() || !done.insert(u).second) return;
        locals.clear(); tyidx.clear(); tytab = A();
        O o;
        o["q"] = qn(R);
        o["t"] = ty(C.getRecordType(R));
        o["file"] = fileOf(R->getLocation());
        o["l"] = line(R->getLocation());
        o["u"] = u;
        A fs;
        for (auto* f : R->fields()) {
            O fo;
            fo["n"] = fix(f->getNameAsString());
            fo["t"] = ty(f->getType());
            fo["l"] = line(f->getLocation());
            fo["access"] = f->getAccess() == AS_private ? "private" : f->getAccess() == AS_protected ? "protected" : "public";
            if (f->isMutable()) fo["mutable"] = true;
            if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = true;
            if (auto* RT = f->getType()->getAs<RecordType>()) fo["rec"] = qn(RT->getDecl());
            fs.push_back(std::move(fo));
        }
        o["fields"] = std::move(fs);
        if (auto* X = dyn_cast<CXXRecordDecl>(R)) {
            A bs;
            for (auto& b : X->bases()) {
                O bo;
                bo["t"] = ty(b.getType());
                if (auto* RT = b.getType()->getAs<RecordType>()) { bo["q"] = qn(RT->getDecl()); bo["u"] = usr(RT->getDecl()); }
                bs.push_back(std::move(bo));
            }
            o["bases"] = std::move(bs);
            A ms;
            for (auto* m : X->methods()) {
                O mo;
                mo["q"] = qn(m);
                mo["u"] = usr(m);
                mo["n"] = fix(m->getNameAsString());
                mo["access"] = m->getAccess() == AS_private ? "private" : m->getAccess() == AS_protected ? "protected" : "public";
                if (m->isConst()) mo["const"] = true;
                if (m->isVirtual()) mo["virt"] = true;
                if (m->isPureVirtual()) mo["pure"] = true;
                if (m->isDeleted()) mo["deleted"] = true;
                if (m->isImplicit()) mo["implicit"] = true;
                if (m->isStatic()) mo["static"] = true;
                if (isa<CXXConstructorDecl>(m)) mo["ctor"] = true;
                if (isa<CXXDestructorDecl>(m)) mo["dtor"] = true;
                if (auto* cc = dyn_cast<CXXConstructorDecl>(m)) if (cc->isCopyConstructor()) mo["cctor"] = true;
                if (m->isCopyAssignmentOperator()) mo["casg"] = true;
                mo["defined"] = m->isDefined();
                A pt;
                for (auto* p : m->parameters()) pt.push_back(ty(p->getType()));
                mo["pt"] = std::move(pt);
                A ov;
                for (auto* b : m->overridden_methods()) ov.push_back(usr(b));
                if (!ov.empty()) mo["overrides"] = std::move(ov);
                ms.push_back(std::move(mo));
            }
            o["methods"] = std::move(ms);
            if (X->hasUserDeclaredCopyConstructor()) o["ucctor"] = true;
            if (X->hasUserDeclaredCopyAssignment()) o["ucasg"] = true;
            if (X->hasUserDeclaredDestructor()) o["udtor"] = true;
            if (X->isAbstract()) o["abstract"] = true;
            if (X->isPolymorphic()) o["poly"] = true;
        }
        emit("R", u, V(std::move(o)));
    }

    void enumd(const EnumDecl* E) {
        if (!E->isCompleteDefinition() || !inRepo(E->getLocation()) || E->isDependentContext()) return;
        std::string u = usr(E);
        if (u.empty() || !done.insert(u).second) return;
        O o;
        o["q"] = qn(E);
        o["t"] = ty(C.getEnumType(E));
        o["file"] = fileOf(E->getLocation());
        o["l"] = line(E->getLocation());
        A cs;
        for (auto* c : E->enumerators()) {
            O co;
            co["n"] = fix(c->getNameAsString());
            co["q"] = qn(c);
            co["v"] = apv(c->getInitVal());
            cs.push_back(std::move(co));
        }
        o["c"] = std::move(cs);
        emit("E", u, V(std::move(o)));
    }

    void global(const VarDecl* D) {
        if (D->isLocalVarDeclOrParm() || D->getDeclContext()->isDependentContext()) return;
        if (!inRepo(D->getLocation())) return;
        if (D->isThisDeclarationADefinition() == VarDecl::DeclarationOnly && !D->getInit()) return;
        std::string u = usr(D);
        if (u.empty() || !done.insert(u).second) return;
        locals.clear(); tyidx.clear(); tytab = A();
        O o;
        o["q"] = qn(D);
        o["u"] = u;
        o["file"] = fileOf(D->getLocation());
        o["l"] = line(D->getLocation());
        o["t"] = tyi(D->getType());
        o["const"] = D->getType().isConstQualified();
        if (D->getInit()) o["init"] = ex(D->getInit());
        o["T"] = std::move(tytab);
        emit("G", u, V(std::move(o)));
    }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
    Exporter& X;
    Visitor(Exporter& x) : X(x) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl* F) {
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
        if (F->doesThisDeclarationHaveABody()) X.function(F);
        return true;
    }
    bool VisitRecordDecl(RecordDecl* R) { X.record(R); return true; }
    bool VisitEnumDecl(EnumDecl* E) { X.enumd(E); return true; }
    bool VisitVarDecl(VarDecl* D) { X.global(D); return true; }
};

struct Consumer : ASTConsumer {
    llvm::raw_ostream& os;
    Consumer(llvm::raw_ostream& o) : os(o) {}
    void HandleTranslationUnit(ASTContext& C) override {
        SourceManager& SM = C.getSourceManager();
        // dependencies inside the repository
        std::set<std::string> deps;
        for (auto it = SM.fileinfo_begin(); it != SM.fileinfo_end(); ++it) {
            std::string p = it->first.getFileEntry().tryGetRealPathName().str();
            if (!p.empty()) deps.insert(p);
        }
        A d;
        for (auto& p : deps) d.push_back(p);
        os << "D\tdeps\t" << V(std::move(d)) << '\n';
        Exporter X(C, os);
        Visitor v(X);
        v.TraverseDecl(C.getTranslationUnitDecl());
        os << "Z\terrors\t" << (int)C.getDiagnostics().hasErrorOccurred() << '\n';
    }
};

struct Action : ASTFrontendAction {
    llvm::raw_ostream& os;
    Action(llvm::raw_ostream& o) : os(o) {}
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override {
        return std::make_unique<Consumer>(os);
    }
};
struct Factory : tooling::FrontendActionFactory {
    llvm::raw_ostream& os;
    Factory(llvm::raw_ostream& o) : os(o) {}
    std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(os); }
};

// usage: vx OUT ROOT/ [EXTRAROOT/ or -] SOURCE -- FLAGS...
int main(int argc, const char** argv) {
    if (argc < 6) { llvm::errs() << "usage: vx OUT ROOT EXTRA SOURCE -- FLAGS\n"; return 2; }
    std::string out = argv[1];
    Root = argv[2];
    if (std::string(argv[3]) != "-") ExtraRoot = argv[3];
    std::string src = argv[4];
    std::vector<std::string> flags;
    for (int i = 6; i < argc; ++i) flags.push_back(argv[i]);
    std::error_code ec;
    llvm::raw_fd_ostream os(out, ec);
    if (ec) { llvm::errs() << ec.message() << "\n"; return 2; }
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool T(db, {src});
    Factory f(os);
    int rc = T.run(&f);
    os.flush();
    return rc;
}
