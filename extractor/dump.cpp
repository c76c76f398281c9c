// modbus-sa extractor: prints the resolved program (functions, records, enums
// whose definition lies under a given root) as JSON. Pure front end: it decides
// nothing. Everything is resolved by clang's Sema: overloads, implicit
// conversions, template instantiations, constants, captures.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;

static std::vector<std::string> Roots;
static std::string OutPath;

static std::string esc(llvm::StringRef s)
{
    std::string r = "\"";
    for(unsigned char c : s)
    {
        if(c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if(c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r + "\"";
}

struct Dumper : RecursiveASTVisitor<Dumper>
{
    ASTContext& C;
    SourceManager& SM;
    std::string O;                       // functions
    std::string R;                       // records
    std::string En;                      // enums
    std::string G;                       // globals
    std::map<std::string, int> TypeIds;  // canonical string -> id
    std::string T;                       // type table
    std::map<const Decl*, int> VarIds;
    std::set<std::string> DoneFn, DoneRec;
    PrintingPolicy PP;

    explicit Dumper(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts())
    {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
        PP.Bool = true;
    }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }

    std::string file(SourceLocation L) { L = SM.getExpansionLoc(L); return SM.getFilename(L).str(); }
    unsigned line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
    bool inRoot(SourceLocation L)
    {
        if(L.isInvalid()) return false;
        auto f = file(L);
        for(auto& r : Roots) if(f.rfind(r, 0) == 0) return true;
        return false;
    }
    std::string usr(const Decl* D)
    {
        llvm::SmallString<256> b;
        index::generateUSRForDecl(D, b);
        return b.str().str();
    }
    std::string recName(const RecordDecl* RD)
    {
        if(auto* CR = dyn_cast<CXXRecordDecl>(RD))
            if(CR->isLambda()) return "lambda@" + file(RD->getLocation()) + ":" + std::to_string(line(RD->getLocation())) + ":" + std::to_string(SM.getExpansionColumnNumber(RD->getLocation())) ;
        return C.getTypeDeclType(RD).getCanonicalType().getAsString(PP);
    }
    std::string qname(const NamedDecl* D)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        D->printQualifiedName(os, PP);
        return os.str();
    }
    int type(QualType q)
    {
        if(q.isNull()) return -1;
        QualType c = q.getCanonicalType();
        std::string key = c.getAsString(PP);
        if(auto* RD = c.getUnqualifiedType()->getAsCXXRecordDecl()) if(RD->isLambda()) key = recName(RD);
        auto it = TypeIds.find(key);
        if(it != TypeIds.end()) return it->second;
        int id = (int)TypeIds.size();
        TypeIds[key] = id;
        std::string e = "{\"s\":" + esc(key);
        const clang::Type* t = c.getTypePtr();
        std::string extra;
        if(c.isConstQualified()) e += ",\"const\":1";
        if(t->isReferenceType())
        {
            e += std::string(",\"k\":\"") + (t->isRValueReferenceType() ? "rref" : "ref") + "\",\"e\":" + std::to_string(type(t->getPointeeType()));
        }
        else if(t->isPointerType()) e += ",\"k\":\"ptr\",\"e\":" + std::to_string(type(t->getPointeeType()));
        else if(t->isBooleanType()) e += ",\"k\":\"bool\",\"w\":1";
        else if(auto* ET = t->getAs<EnumType>())
        {
            auto it2 = ET->getDecl()->getIntegerType();
            e += ",\"k\":\"enum\",\"c\":" + esc(qname(ET->getDecl()));
            if(!it2.isNull() && !ET->isDependentType()) e += ",\"w\":" + std::to_string(C.getTypeSize(it2)) + ",\"sg\":" + (it2->isSignedIntegerType() ? "1" : "0");
        }
        else if(t->isIntegerType() && !t->isDependentType()) e += ",\"k\":\"int\",\"w\":" + std::to_string(C.getTypeSize(c)) + ",\"sg\":" + (t->isSignedIntegerType() ? "1" : "0");
        else if(t->isFloatingType()) e += ",\"k\":\"float\"";
        else if(auto* RD = t->getAsRecordDecl())
        {
            e += ",\"k\":\"rec\",\"c\":" + esc(recName(RD));
            if(auto* SD = dyn_cast<ClassTemplateSpecializationDecl>(RD))
            {
                e += ",\"tn\":" + esc(SD->getSpecializedTemplate()->getQualifiedNameAsString()) + ",\"ta\":[";
                bool first = true;
                std::vector<TemplateArgument> args;
                for(auto& a : SD->getTemplateArgs().asArray())
                {
                    if(a.getKind() == TemplateArgument::Pack) for(auto& p : a.pack_elements()) args.push_back(p);
                    else args.push_back(a);
                }
                for(auto& a : args)
                {
                    if(!first) e += ",";
                    first = false;
                    if(a.getKind() == TemplateArgument::Type) e += std::to_string(type(a.getAsType()));
                    else if(a.getKind() == TemplateArgument::Integral) e += "{\"v\":" + llvm::toString(a.getAsIntegral(), 10) + "}";
                    else e += "null";
                }
                e += "]";
            }
            else e += ",\"tn\":" + esc(RD->getQualifiedNameAsString());
        }
        else if(auto* AT = dyn_cast<ConstantArrayType>(t)) e += ",\"k\":\"arr\",\"n\":" + llvm::toString(AT->getSize(), 10, false) + ",\"e\":" + std::to_string(type(AT->getElementType()));
        else if(t->isVoidType()) e += ",\"k\":\"void\"";
        else if(t->isNullPtrType()) e += ",\"k\":\"null\"";
        else e += ",\"k\":\"other\"";
        e += "}";
        if(!T.empty()) T += ",\n";
        T += std::to_string(id) + "";
        T.resize(T.size() - std::to_string(id).size());
        T += "\"" + std::to_string(id) + "\":" + e;
        return id;
    }
    int var(const Decl* D)
    {
        D = D->getCanonicalDecl();
        auto it = VarIds.find(D);
        if(it != VarIds.end()) return it->second;
        int id = (int)VarIds.size();
        VarIds[D] = id;
        return id;
    }
    std::string fnRef(const FunctionDecl* F)
    {
        std::string s = "{\"u\":" + esc(usr(F)) + ",\"q\":" + esc(F->getQualifiedNameAsString()) + ",\"n\":" + esc(F->getNameAsString());
        if(auto* M = dyn_cast<CXXMethodDecl>(F))
        {
            s += ",\"c\":" + esc(recName(M->getParent()));
            if(auto* SD = dyn_cast<ClassTemplateSpecializationDecl>(M->getParent())) s += ",\"ct\":" + esc(SD->getSpecializedTemplate()->getQualifiedNameAsString());
            else s += ",\"ct\":" + esc(M->getParent()->getQualifiedNameAsString());
            if(M->isVirtual()) s += ",\"v\":1";
            if(M->isStatic()) s += ",\"st\":1";
            if(M->isConst()) s += ",\"cm\":1";
            if(auto* K = dyn_cast<CXXConstructorDecl>(M))
            {
                if(K->isCopyConstructor()) s += ",\"cp\":1";
                if(K->isMoveConstructor()) s += ",\"mv\":1";
                if(K->isDefaultConstructor()) s += ",\"dc\":1";
            }
            if(M->isCopyAssignmentOperator() || M->isMoveAssignmentOperator()) s += ",\"as\":1";
            if(M->isDefaulted() || M->isImplicit()) s += ",\"df\":1";
            if(M->getParent()->isLambda()) s += ",\"lam\":1";
        }
        s += ",\"rt\":" + std::to_string(type(F->getReturnType()));
        s += ",\"pt\":[";
        for(unsigned i = 0; i < F->getNumParams(); ++i) s += (i ? "," : "") + std::to_string(type(F->getParamDecl(i)->getType()));
        s += "]";
        if(auto* TA = F->getTemplateSpecializationArgs())
        {
            s += ",\"fta\":[";
            bool first = true;
            std::vector<TemplateArgument> args;
            for(auto& a : TA->asArray())
            {
                if(a.getKind() == TemplateArgument::Pack) for(auto& p : a.pack_elements()) args.push_back(p);
                else args.push_back(a);
            }
            for(auto& a : args)
            {
                if(!first) s += ",";
                first = false;
                if(a.getKind() == TemplateArgument::Type) s += std::to_string(type(a.getAsType()));
                else s += "null";
            }
            s += "]";
        }
        auto* Def = F->getDefinition();
        const FunctionDecl* loc = Def ? Def : F;
        if(auto* P = F->getTemplateInstantiationPattern()) loc = P;
        if(inRoot(loc->getLocation())) s += ",\"repo\":1";
        return s + "}";
    }
    std::string exprs(llvm::ArrayRef<const Expr*> es)
    {
        std::string s = "[";
        bool f = true;
        for(auto* e : es) { if(!f) s += ","; f = false; s += expr(e); }
        return s + "]";
    }
    std::string intNode(const Expr* E, const llvm::APSInt& v)
    {
        return "{\"k\":\"int\",\"v\":" + llvm::toString(v, 10) + ",\"t\":" + std::to_string(type(E->getType())) + ",\"l\":" + std::to_string(line(E->getExprLoc())) + "}";
    }
    std::string lambda(const LambdaExpr* L)
    {
        auto* Op = L->getCallOperator();
        std::string s = "{\"k\":\"lambda\",\"l\":" + std::to_string(line(L->getBeginLoc())) + ",\"f\":" + esc(file(L->getBeginLoc())) + ",\"id\":" + esc(recName(L->getLambdaClass())) + ",\"t\":" + std::to_string(type(L->getType())) + ",\"mut\":" + (L->isMutable() ? "1" : "0") + ",\"caps\":[";
        bool first = true;
        auto it = L->capture_init_begin();
        for(auto& c : L->captures())
        {
            if(!first) s += ",";
            first = false;
            const Expr* init = *it++;
            if(c.capturesThis()) s += std::string("{\"k\":\"") + (c.getCaptureKind() == LCK_StarThis ? "starthis" : "this") + "\"}";
            else if(c.capturesVariable())
            {
                auto* V = c.getCapturedVar();
                s += "{\"k\":\"" + std::string(c.getCaptureKind() == LCK_ByRef ? "ref" : "val") + "\",\"v\":" + std::to_string(var(V)) + ",\"n\":" + esc(V->getNameAsString()) + ",\"t\":" + std::to_string(type(V->getType())) + ",\"init\":" + (init ? expr(init) : "null") + ",\"ic\":" + (isa<VarDecl>(V) && cast<VarDecl>(V)->isInitCapture() ? "1" : "0");
                if(auto* VD = dyn_cast<VarDecl>(V)) if(VD->isInitCapture() && VD->getInit()) s += ",\"iinit\":" + expr(VD->getInit());
                s += "}";
            }
            else s += "{\"k\":\"other\"}";
        }
        s += "],\"params\":" + params(Op) + ",\"rt\":" + std::to_string(type(Op->getReturnType()));
        const FunctionDecl* bodyF = Op;
        if(auto* TD = Op->getDescribedFunctionTemplate())
        {
            s += ",\"generic\":1";
            // generic lambda: use its first instantiation, if any
            for(auto* Sp : TD->specializations()) { bodyF = Sp; break; }
            if(bodyF != Op) s += ",\"gparams\":" + params(bodyF);
        }
        s += ",\"body\":" + stmt(bodyF->getBody()) + "}";
        return s;
    }
    std::string params(const FunctionDecl* F)
    {
        std::string s = "[";
        for(unsigned i = 0; i < F->getNumParams(); ++i)
        {
            auto* P = F->getParamDecl(i);
            s += (i ? "," : "") + std::string("{\"v\":") + std::to_string(var(P)) + ",\"n\":" + esc(P->getNameAsString()) + ",\"t\":" + std::to_string(type(P->getType())) + "}";
        }
        return s + "]";
    }
    std::string head(const char* k, const Expr* E)
    {
        return std::string("{\"k\":\"") + k + "\",\"l\":" + std::to_string(line(E->getExprLoc())) + ",\"t\":" + std::to_string(type(E->getType())) + (E->isGLValue() ? ",\"lv\":1" : "");
    }
    // initialiser of a constant with static storage
    std::string constInit(const VarDecl* V)
    {
        if(!V->getType().isConstQualified() || !inRoot(V->getLocation())) return "";
        const Expr* I = V->getAnyInitializer();
        if(!I || I->isValueDependent()) return "";
        return ",\"init\":" + expr(I);
    }
    std::string expr(const Expr* E)
    {
        if(!E) return "null";
        // transparent nodes
        if(auto* X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
        if(auto* X = dyn_cast<ExprWithCleanups>(E)) return expr(X->getSubExpr());
        if(auto* X = dyn_cast<MaterializeTemporaryExpr>(E)) return expr(X->getSubExpr());
        if(auto* X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
        if(auto* X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
        if(auto* X = dyn_cast<CXXDefaultArgExpr>(E)) return expr(X->getExpr());
        if(auto* X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(X->getExpr());
        if(auto* X = dyn_cast<CXXStdInitializerListExpr>(E)) return expr(X->getSubExpr());
        if(auto* X = dyn_cast<CXXRewrittenBinaryOperator>(E)) return expr(X->getSemanticForm());
        if(E->isTypeDependent() || E->isValueDependent()) return head("dep", E) + "}";
        // constants
        if(!E->isGLValue() && E->getType()->isIntegralOrEnumerationType())
        {
            Expr::EvalResult r;
            if(E->EvaluateAsInt(r, C, Expr::SE_NoSideEffects)) return intNode(E, r.Val.getInt());
        }
        if(auto* X = dyn_cast<ConstantExpr>(E)) return expr(X->getSubExpr());
        if(auto* X = dyn_cast<CXXFunctionalCastExpr>(E)) { if(X->getCastKind() == CK_NoOp || X->getCastKind() == CK_ConstructorConversion) return expr(X->getSubExpr()); }
        if(auto* X = dyn_cast<CastExpr>(E))
        {
            switch(X->getCastKind())
            {
                case CK_NoOp: case CK_LValueToRValue: case CK_ConstructorConversion: case CK_UserDefinedConversion:
                case CK_FunctionToPointerDecay: case CK_AtomicToNonAtomic: case CK_NonAtomicToAtomic:
                    return expr(X->getSubExpr());
                case CK_UncheckedDerivedToBase: case CK_DerivedToBase: case CK_BaseToDerived: case CK_Dynamic: case CK_BitCast:
                    return head("pcast", E) + ",\"ck\":" + esc(X->getCastKindName()) + ",\"e\":" + expr(X->getSubExpr()) + "}";
                case CK_ArrayToPointerDecay:
                    return head("decay", E) + ",\"e\":" + expr(X->getSubExpr()) + "}";
                case CK_NullToPointer:
                    return head("null", E) + "}";
                case CK_ToVoid: return expr(X->getSubExpr());
                default:
                    return head("cast", E) + ",\"ck\":" + esc(X->getCastKindName()) + ",\"e\":" + expr(X->getSubExpr()) + (isa<ExplicitCastExpr>(X) ? ",\"ex\":1" : "") + "}";
            }
        }
        if(auto* X = dyn_cast<CXXBoolLiteralExpr>(E)) return head("int", E) + ",\"v\":" + (X->getValue() ? "1" : "0") + "}";
        if(auto* X = dyn_cast<StringLiteral>(E)) return head("str", E) + ",\"v\":" + (X->getCharByteWidth() == 1 ? esc(X->getString()) : "\"\"") + "}";
        if(isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return head("null", E) + "}";
        if(auto* X = dyn_cast<FloatingLiteral>(E)) return head("float", E) + ",\"v\":" + std::to_string(X->getValueAsApproximateDouble()) + "}";
        if(isa<CXXThisExpr>(E)) return head("this", E) + "}";
        if(auto* X = dyn_cast<DeclRefExpr>(E))
        {
            auto* D = X->getDecl();
            if(auto* F = dyn_cast<FunctionDecl>(D)) return head("fref", E) + ",\"fn\":" + fnRef(F) + "}";
            if(isa<BindingDecl>(D)) return head("bind", E) + ",\"v\":" + std::to_string(var(D)) + ",\"n\":" + esc(D->getNameAsString()) + ",\"e\":" + expr(cast<BindingDecl>(D)->getBinding()) + "}";
            std::string sc = "local";
            std::string extra;
            if(auto* V = dyn_cast<VarDecl>(D))
            {
                if(isa<ParmVarDecl>(V)) sc = "param";
                else if(V->isLocalVarDecl() && !V->isStaticLocal()) sc = "local";
                else { sc = "global"; extra = ",\"q\":" + esc(V->getQualifiedNameAsString()); extra += constInit(V); }
            }
            return head("var", E) + ",\"v\":" + std::to_string(var(D)) + ",\"n\":" + esc(D->getNameAsString()) + ",\"sc\":\"" + sc + "\",\"dt\":" + std::to_string(type(D->getType())) + extra + "}";
        }
        if(auto* X = dyn_cast<MemberExpr>(E))
        {
            auto* D = X->getMemberDecl();
            if(auto* F = dyn_cast<FieldDecl>(D))
                return head("mem", E) + ",\"b\":" + expr(X->getBase()) + ",\"f\":" + esc(F->getNameAsString()) + ",\"c\":" + esc(recName(F->getParent())) + ",\"ar\":" + (X->isArrow() ? "1" : "0") + "}";
            if(auto* M = dyn_cast<FunctionDecl>(D)) return head("mfref", E) + ",\"b\":" + expr(X->getBase()) + ",\"fn\":" + fnRef(M) + "}";
            return head("var", E) + ",\"v\":" + std::to_string(var(D)) + ",\"n\":" + esc(D->getNameAsString()) + ",\"sc\":\"global\",\"q\":" + esc(D->getQualifiedNameAsString()) + ",\"dt\":" + std::to_string(type(D->getType())) + (isa<VarDecl>(D) ? constInit(cast<VarDecl>(D)) : std::string()) + "}";
        }
        if(auto* X = dyn_cast<CXXOperatorCallExpr>(E))
        {
            auto* F = X->getDirectCallee();
            std::vector<const Expr*> a(X->arg_begin(), X->arg_end());
            if(F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic())
            {
                const Expr* o = a[0];
                a.erase(a.begin());
                return head("call", E) + ",\"op\":" + esc(getOperatorSpelling(X->getOperator())) + ",\"fn\":" + fnRef(F) + ",\"o\":" + expr(o) + ",\"a\":" + exprs(a) + "}";
            }
            if(F) return head("call", E) + ",\"op\":" + esc(getOperatorSpelling(X->getOperator())) + ",\"fn\":" + fnRef(F) + ",\"o\":null,\"a\":" + exprs(a) + "}";
            return head("icall", E) + ",\"a\":" + exprs(a) + "}";
        }
        if(auto* X = dyn_cast<CXXMemberCallExpr>(E))
        {
            auto* F = X->getMethodDecl();
            std::vector<const Expr*> a(X->arg_begin(), X->arg_end());
            if(F)
            {
                auto* ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens());
                std::string nv = (ME && ME->hasQualifier()) ? ",\"nv\":1" : "";
                return head("call", E) + nv + ",\"fn\":" + fnRef(F) + ",\"o\":" + expr(X->getImplicitObjectArgument()) + ",\"oa\":" + (ME && ME->isArrow() ? "1" : "0") + ",\"a\":" + exprs(a) + "}";
            }
            return head("icall", E) + ",\"fe\":" + expr(X->getCallee()) + ",\"a\":" + exprs(a) + "}";
        }
        if(auto* X = dyn_cast<CallExpr>(E))
        {
            std::vector<const Expr*> a(X->arg_begin(), X->arg_end());
            if(auto* F = X->getDirectCallee()) return head("call", E) + ",\"fn\":" + fnRef(F) + ",\"o\":null,\"a\":" + exprs(a) + "}";
            if(auto* PD = dyn_cast<CXXPseudoDestructorExpr>(X->getCallee()->IgnoreParens())) return head("pdtor", E) + ",\"b\":" + expr(PD->getBase()) + "}";
            return head("icall", E) + ",\"fe\":" + expr(X->getCallee()) + ",\"a\":" + exprs(a) + "}";
        }
        if(auto* X = dyn_cast<CXXInheritedCtorInitExpr>(E)) return head("unk", E) + ",\"c\":\"InheritedCtor\"}";
        if(auto* X = dyn_cast<CXXConstructExpr>(E))
        {
            std::vector<const Expr*> a(X->arg_begin(), X->arg_end());
            if(X->isElidable() && a.size() == 1) return expr(a[0]);
            return head("ctor", E) + ",\"fn\":" + fnRef(X->getConstructor()) + ",\"a\":" + exprs(a) + (X->isListInitialization() ? ",\"list\":1" : "") + (X->requiresZeroInitialization() ? ",\"zi\":1" : "") + (isa<CXXTemporaryObjectExpr>(X) ? ",\"tmp\":1" : "") + "}";
        }
        if(auto* X = dyn_cast<InitListExpr>(E))
        {
            const InitListExpr* S = X->isSemanticForm() ? X : (X->getSemanticForm() ? X->getSemanticForm() : X);
            std::vector<const Expr*> a;
            for(unsigned i = 0; i < S->getNumInits(); ++i) a.push_back(S->getInit(i));
            std::string names = "[";
            if(auto* RD = E->getType()->getAsRecordDecl())
            {
                bool f = true;
                if(auto* CR = dyn_cast<CXXRecordDecl>(RD)) for(unsigned i = 0; i < CR->getNumBases(); ++i) { if(!f) names += ","; f = false; names += "\"<base>\""; }
                for(auto* F : RD->fields()) { if(!f) names += ","; f = false; names += esc(F->getNameAsString()); }
            }
            return head("ilist", E) + ",\"a\":" + exprs(a) + ",\"fs\":" + names + "]}";
        }
        if(isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) return head("zero", E) + "}";
        if(auto* X = dyn_cast<CompoundAssignOperator>(E)) return head("cassign", E) + ",\"op\":" + esc(BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(X->getOpcode()))) + ",\"ct\":" + std::to_string(type(X->getComputationResultType())) + ",\"a\":" + expr(X->getLHS()) + ",\"b\":" + expr(X->getRHS()) + "}";
        if(auto* X = dyn_cast<BinaryOperator>(E))
        {
            if(X->getOpcode() == BO_Assign) return head("assign", E) + ",\"a\":" + expr(X->getLHS()) + ",\"b\":" + expr(X->getRHS()) + "}";
            return head("bin", E) + ",\"op\":" + esc(X->getOpcodeStr()) + ",\"a\":" + expr(X->getLHS()) + ",\"b\":" + expr(X->getRHS()) + "}";
        }
        if(auto* X = dyn_cast<UnaryOperator>(E)) return head("un", E) + ",\"op\":" + esc(UnaryOperator::getOpcodeStr(X->getOpcode())) + (X->isPostfix() ? ",\"post\":1" : "") + ",\"e\":" + expr(X->getSubExpr()) + "}";
        if(auto* X = dyn_cast<ConditionalOperator>(E)) return head("cond", E) + ",\"c\":" + expr(X->getCond()) + ",\"a\":" + expr(X->getTrueExpr()) + ",\"b\":" + expr(X->getFalseExpr()) + "}";
        if(auto* X = dyn_cast<ArraySubscriptExpr>(E)) return head("index", E) + ",\"a\":" + expr(X->getBase()) + ",\"b\":" + expr(X->getIdx()) + "}";
        if(auto* X = dyn_cast<CXXNewExpr>(E))
        {
            std::vector<const Expr*> pa;
            for(unsigned i = 0; i < X->getNumPlacementArgs(); ++i) pa.push_back(X->getPlacementArg(i));
            return head("new", E) + ",\"place\":" + exprs(pa) + ",\"at\":" + std::to_string(type(X->getAllocatedType())) + ",\"init\":" + expr(X->getInitializer()) + ",\"arr\":" + (X->isArray() ? "1" : "0") + "}";
        }
        if(auto* X = dyn_cast<CXXDeleteExpr>(E)) return head("delete", E) + ",\"e\":" + expr(X->getArgument()) + "}";
        if(auto* X = dyn_cast<LambdaExpr>(E)) return lambda(X);
        if(auto* X = dyn_cast<CXXThrowExpr>(E)) return head("throw", E) + ",\"e\":" + expr(X->getSubExpr()) + "}";
        if(auto* X = dyn_cast<CXXTypeidExpr>(E)) return head("typeid", E) + (X->isTypeOperand() ? ",\"ty\":" + std::to_string(type(X->getTypeOperandSourceInfo()->getType())) : ",\"e\":" + expr(X->getExprOperand())) + "}";
        if(auto* X = dyn_cast<StmtExpr>(E)) return head("unk", E) + ",\"c\":\"StmtExpr\"}";
        return head("unk", E) + ",\"c\":" + esc(E->getStmtClassName()) + "}";
    }
    std::string varDecl(const VarDecl* V)
    {
        std::string s = "{\"k\":\"decl\",\"l\":" + std::to_string(line(V->getLocation())) + ",\"v\":" + std::to_string(var(V)) + ",\"n\":" + esc(V->getNameAsString()) + ",\"t\":" + std::to_string(type(V->getType())) + (V->isStaticLocal() ? ",\"static\":1" : "");
        s += ",\"init\":" + (V->getInit() ? expr(V->getInit()) : std::string("null"));
        if(auto* DD = dyn_cast<DecompositionDecl>(V))
        {
            s += ",\"binds\":[";
            bool f = true;
            for(auto* B : DD->bindings())
            {
                if(!f) s += ",";
                f = false;
                s += "{\"v\":" + std::to_string(var(B)) + ",\"n\":" + esc(B->getNameAsString()) + ",\"e\":" + expr(B->getBinding());
                if(auto* HV = B->getHoldingVar()) s += ",\"hv\":" + std::to_string(var(HV)) + ",\"hinit\":" + (HV->getInit() ? expr(HV->getInit()) : "null");
                s += "}";
            }
            s += "]";
        }
        return s + "}";
    }
    std::string stmts(Stmt::const_child_range r)
    {
        std::string s = "[";
        bool f = true;
        for(auto* c : r) { if(!c) continue; if(!f) s += ","; f = false; s += stmt(c); }
        return s + "]";
    }
    std::string stmt(const Stmt* S)
    {
        if(!S) return "null";
        std::string L = ",\"l\":" + std::to_string(line(S->getBeginLoc()));
        if(auto* X = dyn_cast<CompoundStmt>(S)) return "{\"k\":\"block\"" + L + ",\"s\":" + stmts(X->children()) + "}";
        if(auto* X = dyn_cast<DeclStmt>(S))
        {
            std::string s = "{\"k\":\"decls\"" + L + ",\"d\":[";
            bool f = true;
            for(auto* D : X->decls()) if(auto* V = dyn_cast<VarDecl>(D)) { if(!f) s += ","; f = false; s += varDecl(V); }
            return s + "]}";
        }
        if(auto* X = dyn_cast<IfStmt>(S))
        {
            if(X->isConstexpr())
            {
                auto act = X->getNondiscardedCase(C);
                if(act) return *act ? stmt(*act) : "{\"k\":\"block\"" + L + ",\"s\":[]}";
            }
            std::string s = "{\"k\":\"if\"" + L;
            if(X->getInit()) s += ",\"init\":" + stmt(X->getInit());
            if(X->getConditionVariable()) s += ",\"cv\":" + varDecl(X->getConditionVariable());
            return s + ",\"c\":" + expr(X->getCond()) + ",\"a\":" + stmt(X->getThen()) + ",\"b\":" + stmt(X->getElse()) + "}";
        }
        if(auto* X = dyn_cast<WhileStmt>(S)) return "{\"k\":\"while\"" + L + (X->getConditionVariable() ? ",\"cv\":" + varDecl(X->getConditionVariable()) : "") + ",\"c\":" + expr(X->getCond()) + ",\"a\":" + stmt(X->getBody()) + "}";
        if(auto* X = dyn_cast<DoStmt>(S)) return "{\"k\":\"do\"" + L + ",\"c\":" + expr(X->getCond()) + ",\"a\":" + stmt(X->getBody()) + "}";
        if(auto* X = dyn_cast<ForStmt>(S)) return "{\"k\":\"for\"" + L + ",\"init\":" + stmt(X->getInit()) + ",\"c\":" + expr(X->getCond()) + ",\"inc\":" + expr(X->getInc()) + ",\"a\":" + stmt(X->getBody()) + (X->getConditionVariable() ? ",\"cv\":" + varDecl(X->getConditionVariable()) : "") + "}";
        if(auto* X = dyn_cast<CXXForRangeStmt>(S)) return "{\"k\":\"forr\"" + L + (X->getInit() ? ",\"init\":" + stmt(X->getInit()) : "") + ",\"rng\":" + stmt(X->getRangeStmt()) + ",\"re\":" + expr(X->getRangeInit()) + ",\"beg\":" + stmt(X->getBeginStmt()) + ",\"end\":" + stmt(X->getEndStmt()) + ",\"c\":" + expr(X->getCond()) + ",\"inc\":" + expr(X->getInc()) + ",\"var\":" + varDecl(X->getLoopVariable()) + ",\"a\":" + stmt(X->getBody()) + "}";
        if(auto* X = dyn_cast<ReturnStmt>(S)) return "{\"k\":\"ret\"" + L + ",\"e\":" + expr(X->getRetValue()) + "}";
        if(isa<BreakStmt>(S)) return "{\"k\":\"break\"" + L + "}";
        if(isa<ContinueStmt>(S)) return "{\"k\":\"cont\"" + L + "}";
        if(isa<NullStmt>(S)) return "{\"k\":\"block\"" + L + ",\"s\":[]}";
        if(auto* X = dyn_cast<SwitchStmt>(S)) return "{\"k\":\"switch\"" + L + (X->getInit() ? ",\"init\":" + stmt(X->getInit()) : "") + (X->getConditionVariable() ? ",\"cv\":" + varDecl(X->getConditionVariable()) : "") + ",\"c\":" + expr(X->getCond()) + ",\"a\":" + stmt(X->getBody()) + "}";
        if(auto* X = dyn_cast<CaseStmt>(S)) return "{\"k\":\"case\"" + L + ",\"c\":" + expr(X->getLHS()) + ",\"c2\":" + expr(X->getRHS()) + ",\"s\":" + stmt(X->getSubStmt()) + "}";
        if(auto* X = dyn_cast<DefaultStmt>(S)) return "{\"k\":\"default\"" + L + ",\"s\":" + stmt(X->getSubStmt()) + "}";
        if(auto* X = dyn_cast<CXXTryStmt>(S))
        {
            std::string s = "{\"k\":\"try\"" + L + ",\"a\":" + stmt(X->getTryBlock()) + ",\"h\":[";
            for(unsigned i = 0; i < X->getNumHandlers(); ++i)
            {
                auto* H = X->getHandler(i);
                s += (i ? "," : "") + std::string("{\"t\":") + (H->getExceptionDecl() ? std::to_string(type(H->getCaughtType())) : "-1") + ",\"v\":" + (H->getExceptionDecl() ? std::to_string(var(H->getExceptionDecl())) : "-1") + ",\"s\":" + stmt(H->getHandlerBlock()) + "}";
            }
            return s + "]}";
        }
        if(auto* X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
        if(auto* X = dyn_cast<LabelStmt>(S)) return "{\"k\":\"unks\",\"c\":\"Label\"" + L + ",\"s\":" + stmt(X->getSubStmt()) + "}";
        if(auto* X = dyn_cast<Expr>(S)) return "{\"k\":\"expr\"" + L + ",\"e\":" + expr(X) + "}";
        return "{\"k\":\"unks\"" + L + ",\"c\":" + esc(S->getStmtClassName()) + "}";
    }
    bool VisitFunctionDecl(FunctionDecl* F)
    {
        if(!F->isThisDeclarationADefinition()) return true;
        if(F->isDependentContext()) return true;
        if(auto* M = dyn_cast<CXXMethodDecl>(F)) if(M->getParent()->isLambda()) return true;
        SourceLocation L = F->getLocation();
        if(auto* P = F->getTemplateInstantiationPattern()) L = P->getLocation();
        if(!inRoot(L)) return true;
        std::string u = usr(F);
        if(!DoneFn.insert(u).second) return true;
        std::string s = "{\"fn\":" + fnRef(F) + ",\"file\":" + esc(file(L)) + ",\"line\":" + std::to_string(line(L)) + ",\"params\":" + params(F);
        std::string pq;
        llvm::raw_string_ostream os(pq);
        F->getNameForDiagnostic(os, PP, true);
        s += ",\"disp\":" + esc(os.str());
        if(auto* M = dyn_cast<CXXMethodDecl>(F))
        {
            s += ",\"ov\":[";
            bool f = true;
            for(auto* o : M->overridden_methods()) { if(!f) s += ","; f = false; s += esc(usr(o)); }
            s += "],\"acc\":" + std::to_string((int)M->getAccess());
        }
        if(auto* K = dyn_cast<CXXConstructorDecl>(F))
        {
            s += ",\"inits\":[";
            bool f = true;
            for(auto* I : K->inits())
            {
                if(!f) s += ",";
                f = false;
                s += "{";
                if(I->isMemberInitializer()) s += "\"m\":" + esc(I->getMember()->getNameAsString());
                else if(I->isIndirectMemberInitializer()) s += "\"m\":" + esc(I->getIndirectMember()->getNameAsString());
                else if(I->isBaseInitializer()) s += "\"b\":" + std::to_string(type(QualType(I->getBaseClass(), 0)));
                else if(I->isDelegatingInitializer()) s += "\"d\":1";
                s += ",\"w\":" + std::string(I->isWritten() ? "1" : "0") + ",\"e\":" + expr(I->getInit()) + "}";
            }
            s += "]";
        }
        if(F->isDefaulted()) s += ",\"df\":1";
        s += ",\"body\":" + stmt(F->getBody()) + "}";
        if(!O.empty()) O += ",\n";
        O += s;
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* D)
    {
        if(!D->isThisDeclarationADefinition() || D->isDependentContext() || D->isLambda()) return true;
        SourceLocation L = D->getLocation();
        if(auto* P = D->getTemplateInstantiationPattern()) L = P->getLocation();
        if(!inRoot(L)) return true;
        if(D->isInvalidDecl()) return true;
        std::string n = recName(D);
        if(!DoneRec.insert(n).second) return true;
        std::string s = "{\"c\":" + esc(n) + ",\"tn\":";
        if(auto* SD = dyn_cast<ClassTemplateSpecializationDecl>(D)) s += esc(SD->getSpecializedTemplate()->getQualifiedNameAsString());
        else s += esc(D->getQualifiedNameAsString());
        s += ",\"file\":" + esc(file(L)) + ",\"line\":" + std::to_string(line(L)) + ",\"union\":" + (D->isUnion() ? "1" : "0") + ",\"bases\":[";
        bool f = true;
        for(auto& b : D->bases()) { if(!f) s += ","; f = false; s += std::to_string(type(b.getType())); }
        s += "],\"fields\":[";
        f = true;
        for(auto* F : D->fields())
        {
            if(!f) s += ",";
            f = false;
            s += "{\"n\":" + esc(F->getNameAsString()) + ",\"t\":" + std::to_string(type(F->getType())) + ",\"l\":" + std::to_string(line(F->getLocation())) + ",\"acc\":" + std::to_string((int)F->getAccess());
            if(F->hasInClassInitializer() && F->getInClassInitializer()) s += ",\"init\":" + expr(F->getInClassInitializer());
            s += "}";
        }
        s += "],\"methods\":[";
        f = true;
        for(auto* M : D->methods())
        {
            if(M->isImplicit()) continue;
            if(!f) s += ",";
            f = false;
            s += "{\"fn\":" + fnRef(M) + ",\"acc\":" + std::to_string((int)M->getAccess()) + ",\"pure\":" + (M->isPureVirtual() ? "1" : "0") + ",\"del\":" + (M->isDeleted() ? "1" : "0") + ",\"ov\":[";
            bool g = true;
            for(auto* o : M->overridden_methods()) { if(!g) s += ","; g = false; s += esc(usr(o)); }
            s += "]}";
        }
        s += "]}";
        if(!R.empty()) R += ",\n";
        R += s;
        return true;
    }
    bool VisitEnumDecl(EnumDecl* D)
    {
        if(!D->isThisDeclarationADefinition() || D->isDependentContext() || !inRoot(D->getLocation())) return true;
        std::string n = qname(D);
        if(!DoneRec.insert("enum " + n).second) return true;
        std::string s = "{\"c\":" + esc(n) + ",\"file\":" + esc(file(D->getLocation())) + ",\"line\":" + std::to_string(line(D->getLocation())) + ",\"v\":[";
        bool f = true;
        for(auto* e : D->enumerators()) { if(!f) s += ","; f = false; s += "[" + esc(e->getNameAsString()) + "," + llvm::toString(e->getInitVal(), 10) + "]"; }
        s += "]}";
        if(!En.empty()) En += ",\n";
        En += s;
        return true;
    }
    bool VisitVarDecl(VarDecl* V)
    {
        // namespace-scope / static-member variables: inventory for the shared-state rules
        if(!V->isFileVarDecl() || V->getDeclContext()->isDependentContext() || !inRoot(V->getLocation())) return true;
        if(!V->isThisDeclarationADefinition()) return true;
        std::string u = usr(V);
        if(!DoneRec.insert("var " + u).second) return true;
        std::string s = "{\"q\":" + esc(V->getQualifiedNameAsString()) + ",\"t\":" + std::to_string(type(V->getType())) + ",\"cst\":" + (V->getType().isConstQualified() || V->isConstexpr() ? "1" : "0") + ",\"file\":" + esc(file(V->getLocation())) + ",\"line\":" + std::to_string(line(V->getLocation())) + "}";
        if(!G.empty()) G += ",\n";
        G += s;
        return true;
    }
};
struct Consumer : ASTConsumer
{
    void HandleTranslationUnit(ASTContext& C) override
    {
        Dumper D(C);
        D.TraverseDecl(C.getTranslationUnitDecl());
        std::ofstream o(OutPath);
        o << "{\"errors\":" << (C.getDiagnostics().hasErrorOccurred() ? 1 : 0) << ",\n\"types\":{" << D.T << "},\n\"functions\":[" << D.O << "],\n\"records\":[" << D.R << "],\n\"enums\":[" << D.En << "],\n\"globals\":[" << D.G << "]}\n";
    }
    bool shouldSkipFunctionBody(Decl* D) override
    {
        // bodies of system-library functions are never needed, except where their
        // return type or a constant has to be deduced from them
        auto& SM = D->getASTContext().getSourceManager();
        if(!SM.isInSystemHeader(SM.getExpansionLoc(D->getLocation()))) return false;
        // (what make_shared and make_unique construct has to be instantiated)
        StringRef file = SM.getFilename(SM.getSpellingLoc(D->getLocation()));
        for(auto n : {"/shared_ptr.h", "/shared_ptr_base.h", "/unique_ptr.h", "/alloc_traits.h", "/new_allocator.h", "/stl_construct.h", "/allocator.h"})
            if(file.ends_with(n)) return false;
        auto* F = D->getAsFunction();
        if(!F || F->isConstexpr() || F->getReturnType()->getContainedAutoType()) return false;
        return true;
    }
};
struct Action : ASTFrontendAction
{
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, StringRef) override
    {
        CI.getFrontendOpts().SkipFunctionBodies = getenv("SA_NOSKIP") == nullptr;
        return std::make_unique<Consumer>();
    }
};
int main(int argc, char** argv)
{
    // dump OUT ROOT[:ROOT...] SOURCE -- flags
    if(argc < 4) return 2;
    OutPath = argv[1];
    llvm::SmallVector<llvm::StringRef, 4> parts;
    llvm::StringRef(argv[2]).split(parts, ':');
    for(auto p : parts) Roots.push_back(p.str());
    std::vector<std::string> src{argv[3]}, flags;
    for(int i = 5; i < argc; ++i) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool t(db, src);
    return t.run(tooling::newFrontendActionFactory<Action>().get());
}
