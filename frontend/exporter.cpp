// Exports the type-checked program (functions defined under a source root, with template instantiations) as JSON.
// usage: exporter OUT.json SOURCE_ROOT driver.cpp -- <clang flags>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string Root, OutFile;
static Value iv(const llvm::APSInt &I) {
    if (I.getSignificantBits() <= 64 && I.isSigned()) return Value((int64_t)I.getExtValue());
    if (I.getActiveBits() <= 64) return Value((uint64_t)I.getZExtValue());
    return Value(nullptr);
}

struct Exporter {
    ASTContext &C;
    PrintingPolicy PP;
    std::map<const void *, int> DeclIds;
    std::map<const Type *, std::map<unsigned, int>> TypeIds;
    Array Types;
    Array Functions;
    Array Records;
    std::set<const FunctionDecl *> Done;
    std::vector<const FunctionDecl *> Queue;
    std::set<const RecordDecl *> RecDone;
    std::vector<std::string> Unsupported;

    Exporter(ASTContext &C) : C(C), PP(C.getPrintingPolicy()) {
        PP.SuppressTagKeyword = true;
        PP.SuppressInlineNamespace = true;
        PP.FullyQualifiedName = true;
        PP.Bool = true;
        PP.SuppressUnwrittenScope = true;
        PP.AnonymousTagLocations = false;
    }

    int declId(const Decl *D) {
        D = D->getCanonicalDecl();
        auto it = DeclIds.find(D);
        if (it != DeclIds.end()) return it->second;
        int n = DeclIds.size() + 1;
        DeclIds[D] = n;
        return n;
    }

    std::string fileOf(SourceLocation L) {
        SourceManager &SM = C.getSourceManager();
        L = SM.getExpansionLoc(L);
        return SM.getFilename(L).str();
    }
    int lineOf(SourceLocation L) {
        SourceManager &SM = C.getSourceManager();
        return SM.getExpansionLineNumber(L);
    }
    bool inRoot(SourceLocation L) {
        std::string f = fileOf(L);
        return f.compare(0, Root.size(), Root) == 0;
    }

    std::string qname(const NamedDecl *D) {
        std::string s;
        llvm::raw_string_ostream os(s);
        const DeclContext *Ctx = D->getDeclContext();
        std::vector<std::string> parts;
        while (Ctx && !Ctx->isTranslationUnit()) {
            if (auto *NS = dyn_cast<NamespaceDecl>(Ctx)) {
                if (!NS->isInline() && !NS->isAnonymousNamespace()) parts.push_back(NS->getNameAsString());
            } else if (auto *R = dyn_cast<RecordDecl>(Ctx)) {
                parts.push_back(R->getNameAsString());
            }
            Ctx = Ctx->getParent();
        }
        for (auto it = parts.rbegin(); it != parts.rend(); ++it) os << *it << "::";
        if (auto *CD = dyn_cast<CXXConstructorDecl>(D)) os << CD->getParent()->getNameAsString();
        else if (isa<CXXDestructorDecl>(D)) os << "~";
        else if (isa<CXXConversionDecl>(D)) os << "operator conversion";
        else os << D->getNameAsString();
        return os.str();
    }

    int type(QualType Q) {
        if (Q.isNull()) return -1;
        Q = Q.getCanonicalType();
        const Type *Ty = Q.getTypePtr();
        unsigned cv = Q.getLocalFastQualifiers();
        auto it = TypeIds[Ty].find(cv);
        if (it != TypeIds[Ty].end()) return it->second;
        int id = Types.size();
        TypeIds[Ty][cv] = id;
        Types.push_back(nullptr);
        Object O;
        O["s"] = Q.getAsString(PP);
        if (Q.isConstQualified()) O["const"] = true;
        if (auto *B = dyn_cast<BuiltinType>(Ty)) {
            if (B->isVoidType()) O["k"] = "void";
            else if (B->getKind() == BuiltinType::Bool) O["k"] = "bool";
            else if (B->isInteger()) {
                O["k"] = "int";
                O["bits"] = (int64_t)C.getTypeSize(Q);
                O["signed"] = B->isSignedInteger();
                if (B->isAnyCharacterType() || B->getKind() == BuiltinType::SChar || B->getKind() == BuiltinType::UChar) O["char"] = true;
            } else if (B->isFloatingPoint()) O["k"] = "double";
            else if (B->isNullPtrType()) O["k"] = "nullptr";
            else O["k"] = "other";
        } else if (auto *P = dyn_cast<PointerType>(Ty)) {
            O["k"] = "ptr";
            O["to"] = type(P->getPointeeType());
        } else if (auto *R = dyn_cast<ReferenceType>(Ty)) {
            O["k"] = isa<RValueReferenceType>(R) ? "rref" : "ref";
            O["to"] = type(R->getPointeeType());
        } else if (auto *E = dyn_cast<EnumType>(Ty)) {
            O["k"] = "enum";
            O["name"] = qname(E->getDecl());
            QualType I = E->getDecl()->getIntegerType();
            if (!I.isNull()) { O["bits"] = (int64_t)C.getTypeSize(I); O["signed"] = I->isSignedIntegerType(); }
            Array Vs;
            for (auto *ec : E->getDecl()->enumerators()) Vs.push_back(Array{ec->getNameAsString(), iv(ec->getInitVal())});
            O["values"] = std::move(Vs);
        } else if (auto *R = dyn_cast<RecordType>(Ty)) {
            O["k"] = "rec";
            O["name"] = qname(R->getDecl());
            O["rid"] = declId(R->getDecl());
            if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R->getDecl())) {
                Array A;
                std::function<void(const TemplateArgument &)> add = [&](const TemplateArgument &TA) {
                    if (TA.getKind() == TemplateArgument::Type) A.push_back(type(TA.getAsType()));
                    else if (TA.getKind() == TemplateArgument::Pack) for (auto &x : TA.pack_elements()) add(x);
                    else A.push_back(-1);
                };
                for (auto &TA : S->getTemplateArgs().asArray()) add(TA);
                O["args"] = std::move(A);
            }
            if (auto *RD = dyn_cast<CXXRecordDecl>(R->getDecl())) {
                if (RD->isLambda()) O["lambda"] = true;
                record(RD);
            }
        } else if (auto *A = dyn_cast<ArrayType>(Ty)) {
            O["k"] = "arr";
            O["of"] = type(A->getElementType());
            if (auto *CA = dyn_cast<ConstantArrayType>(A)) O["n"] = (int64_t)CA->getSize().getZExtValue();
        } else if (isa<FunctionType>(Ty)) {
            O["k"] = "fn";
        } else O["k"] = "other";
        Types[id] = std::move(O);
        return id;
    }

    const char *acc(AccessSpecifier A) { return A == AS_public ? "public" : A == AS_private ? "private" : A == AS_protected ? "protected" : "none"; }

    void record(const CXXRecordDecl *RD) {
        RD = RD->getDefinition();
        if (!RD || !RecDone.insert(RD).second) return;
        bool lam = RD->isLambda();
        { SourceLocation L = RD->getLocation(); if (auto *PT = RD->getTemplateInstantiationPattern()) L = PT->getLocation(); if (!inRoot(L)) return; }
        Object O;
        O["rid"] = declId(RD);
        O["name"] = qname(RD);
        O["line"] = lineOf(RD->getLocation());
        O["file"] = fileOf(RD->getLocation());
        O["lambda"] = lam;
        O["type"] = type(C.getRecordType(RD));
        Array F;
        for (auto *f : RD->fields()) {
            Object fo{{"id", declId(f)}, {"name", f->getNameAsString()}, {"type", type(f->getType())}, {"mutable", f->isMutable()}, {"access", acc(f->getAccess())}, {"line", lineOf(f->getLocation())}};
            if (f->hasInClassInitializer() && f->getInClassInitializer() && !RD->isDependentContext()) fo["init"] = expr(f->getInClassInitializer());
            F.push_back(std::move(fo));
        }
        O["fields"] = std::move(F);
        Array B;
        for (auto &b : RD->bases()) B.push_back(type(b.getType()));
        O["bases"] = std::move(B);
        Array M;
        if (!RD->isDependentContext())
            for (auto *m : RD->methods()) {
                if (auto *F = dyn_cast<FunctionDecl>(m)) {
                    Object mo{{"id", declId(m)}, {"name", qname(m)}, {"access", acc(m->getAccess())}, {"deleted", m->isDeleted()}, {"defaulted", m->isDefaulted()}, {"implicit", m->isImplicit()}, {"const", m->isConst()}};
                    M.push_back(std::move(mo));
                }
            }
        O["methods"] = std::move(M);
        Array S;
        for (auto *d : RD->decls())
            if (auto *v = dyn_cast<VarDecl>(d)) S.push_back(Object{{"id", declId(v)}, {"name", v->getNameAsString()}, {"type", type(v->getType())}, {"access", acc(v->getAccess())}});
        O["statics"] = std::move(S);
        Records.push_back(std::move(O));
    }

    void want(const FunctionDecl *F) {
        if (!F) return;
        const FunctionDecl *Def = nullptr;
        if (F->isDefined(Def)) F = Def;
        if (F->isDependentContext()) return;
        bool lam = false;
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) lam = M->getParent()->isLambda();
        if (!inRoot(F->getLocation()) && fileOf(F->getLocation()).find("driver") == std::string::npos) return;
        if (F->isImplicit() && !lam) return;
        if (!Done.insert(F->getCanonicalDecl()).second) return;
        Queue.push_back(F);
    }

    Object fnRef(const FunctionDecl *F) {
        want(F);
        Object O{{"fid", declId(F)}, {"qn", qname(F)}, {"name", F->getNameAsString()}};
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            O["method"] = true;
            if (M->isConst()) O["const"] = true;
            if (M->isStatic()) O["static"] = true;
            if (M->isDefaulted()) O["defaulted"] = true;
            if (auto *CD = dyn_cast<CXXConstructorDecl>(M)) {
                if (CD->isCopyConstructor()) O["copy"] = true;
                if (CD->isMoveConstructor()) O["move"] = true;
                if (CD->isDefaultConstructor()) O["default"] = true;
            }
            if (M->isCopyAssignmentOperator()) O["copyassign"] = true;
            if (M->isMoveAssignmentOperator()) O["moveassign"] = true;
            O["cls"] = type(C.getRecordType(M->getParent()));
        }
        Array PT;
        for (auto *p : F->parameters()) PT.push_back(type(p->getType()));
        O["ptypes"] = std::move(PT);
        O["ret"] = type(F->getReturnType());
        if (F->isDefaulted()) O["defaulted"] = true;
        if (auto *TA = F->getTemplateSpecializationArgs()) {
            Array A;
            std::function<void(const TemplateArgument &)> add = [&](const TemplateArgument &T) {
                if (T.getKind() == TemplateArgument::Type) A.push_back(type(T.getAsType()));
                else if (T.getKind() == TemplateArgument::Integral) A.push_back(Object{{"i", iv(T.getAsIntegral())}});
                else if (T.getKind() == TemplateArgument::Pack) for (auto &x : T.pack_elements()) add(x);
            };
            for (auto &T : TA->asArray()) add(T);
            O["targs"] = std::move(A);
        }
        return O;
    }

    template <typename R> Array exprs(R range) {
        Array A;
        for (auto *e : range) A.push_back(expr(e));
        return A;
    }

    Value expr(const Expr *E) {
        if (!E) return nullptr;
        // transparent wrappers
        if (auto *X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
        if (auto *X = dyn_cast<ExprWithCleanups>(E)) return expr(X->getSubExpr());
        if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
        if (auto *X = dyn_cast<ConstantExpr>(E)) return expr(X->getSubExpr());
        if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
        if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) return expr(X->getExpr());
        if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(X->getExpr());
        if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) return expr(X->getSemanticForm());
        if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) {
            Object O{{"k", "stdinit"}, {"e", expr(X->getSubExpr())}, {"t", type(E->getType())}, {"l", lineOf(E->getExprLoc())}};
            return O;
        }
        Object O;
        O["l"] = lineOf(E->getExprLoc());
        O["t"] = type(E->getType());
        if (E->isLValue()) O["lv"] = true;
        else if (E->isXValue()) O["xv"] = true;
        if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) {
            O["k"] = "temp";
            O["e"] = expr(X->getSubExpr());
        } else if (auto *X = dyn_cast<IntegerLiteral>(E)) {
            O["k"] = "int";
            O["v"] = X->getType()->isSignedIntegerOrEnumerationType() ? Value((int64_t)X->getValue().getSExtValue()) : Value((uint64_t)X->getValue().getZExtValue());
        } else if (auto *X = dyn_cast<CharacterLiteral>(E)) {
            O["k"] = "int";
            O["v"] = (int64_t)X->getValue();
            O["ch"] = true;
        } else if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) {
            O["k"] = "bool";
            O["v"] = X->getValue();
        } else if (auto *X = dyn_cast<FloatingLiteral>(E)) {
            O["k"] = "float";
            O["v"] = X->getValueAsApproximateDouble();
            if (X->getValue().isInfinity() || X->getValue().isNaN()) O["v"] = X->getValue().isNaN() ? "nan" : "inf";
        } else if (auto *X = dyn_cast<StringLiteral>(E)) {
            O["k"] = "str";
            std::string s = X->getBytes().str();
            Array A;
            for (unsigned char c : s) A.push_back((int)c);
            O["v"] = std::move(A);
        } else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
            O["k"] = "nullptr";
        } else if (auto *X = dyn_cast<DeclRefExpr>(E)) {
            const ValueDecl *D = X->getDecl();
            if (auto *F = dyn_cast<FunctionDecl>(D)) {
                O["k"] = "fn";
                O["f"] = fnRef(F);
            } else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
                O["k"] = "int";
                O["v"] = iv(EC->getInitVal());
                O["enum"] = EC->getNameAsString();
            } else if (auto *BD = dyn_cast<BindingDecl>(D)) {
                return expr(BD->getBinding());
            } else {
                Expr::EvalResult R;
                auto *VD = dyn_cast<VarDecl>(D);
                bool constv = VD && !isa<ParmVarDecl>(VD) && VD->getType().isConstQualified() && E->getType()->isIntegralOrEnumerationType() && !E->isValueDependent() && VD->isUsableInConstantExpressions(C) && X->EvaluateAsInt(R, C);
                O["id"] = declId(D);
                O["name"] = D->getNameAsString();
                O["k"] = "var";
                O["vt"] = type(D->getType());
                if (constv) O["const"] = iv(R.Val.getInt());
                if (VD && VD->hasGlobalStorage()) {
                    O["global"] = true;
                    O["qn"] = qname(VD);
                    const VarDecl *DefV = nullptr;
                    const Expr *I = VD->getAnyInitializer(DefV);
                    if (!constv && I && !I->isValueDependent()) {
                        Expr::EvalResult R2;
                        if (E->getType()->isFloatingType() && I->EvaluateAsRValue(R2, C) && R2.Val.isFloat()) O["fconst"] = R2.Val.getFloat().convertToDouble();
                    }
                }
            }
        } else if (auto *X = dyn_cast<MemberExpr>(E)) {
            if (auto *F = dyn_cast<FieldDecl>(X->getMemberDecl())) {
                O["k"] = "field";
                O["id"] = declId(F);
                O["name"] = F->getNameAsString();
                O["arrow"] = X->isArrow();
                O["e"] = expr(X->getBase());
                O["ft"] = type(F->getType());
                O["owner"] = qname(F->getParent());
            } else if (auto *F = dyn_cast<FunctionDecl>(X->getMemberDecl())) {
                O["k"] = "fn";
                O["f"] = fnRef(F);
                O["e"] = expr(X->getBase());
            } else if (auto *V = dyn_cast<VarDecl>(X->getMemberDecl())) {
                Expr::EvalResult R;
                O["k"] = "var";
                O["id"] = declId(V);
                O["name"] = V->getNameAsString();
                O["vt"] = type(V->getType());
                if (E->getType()->isIntegralOrEnumerationType() && E->EvaluateAsInt(R, C)) O["const"] = iv(R.Val.getInt());
                O["global"] = true;
                O["qn"] = qname(V);
            } else {
                O["k"] = "unk";
                O["cls"] = E->getStmtClassName();
            }
        } else if (isa<CXXThisExpr>(E)) {
            O["k"] = "this";
        } else if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
            O["k"] = "call";
            O["op"] = getOperatorSpelling(X->getOperator());
            const FunctionDecl *F = X->getDirectCallee();
            bool mem = F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic();
            Array A;
            unsigned ai = 0;
            for (auto *a : X->arguments()) {
                if (ai++ == 0 && mem) O["obj"] = expr(a);
                else A.push_back(expr(a));
            }
            if (F) O["f"] = fnRef(F);
            else O["callee"] = expr(X->getCallee());
            O["args"] = std::move(A);
        } else if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
            O["k"] = "call";
            if (auto *F = X->getMethodDecl()) O["f"] = fnRef(F);
            if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) {
                O["obj"] = expr(ME->getBase());
                if (ME->isArrow()) O["arrow"] = true;
            } else O["callee"] = expr(X->getCallee());
            O["args"] = exprs(X->arguments());
        } else if (auto *X = dyn_cast<CallExpr>(E)) {
            O["k"] = "call";
            if (auto *F = X->getDirectCallee()) O["f"] = fnRef(F);
            else O["callee"] = expr(X->getCallee());
            O["args"] = exprs(X->arguments());
        } else if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
            O["k"] = "ctor";
            O["f"] = fnRef(X->getConstructor());
            if (X->isListInitialization()) O["list"] = true;
            if (X->isElidable()) O["elidable"] = true;
            if (X->requiresZeroInitialization()) O["zero"] = true;
            if (isa<CXXTemporaryObjectExpr>(X)) O["tempobj"] = true;
            O["args"] = exprs(X->arguments());
        } else if (auto *X = dyn_cast<CastExpr>(E)) {
            O["k"] = "cast";
            O["ck"] = X->getCastKindName();
            O["e"] = expr(X->getSubExpr());
            if (!isa<ImplicitCastExpr>(X)) O["explicit"] = X->getStmtClassName();
        } else if (auto *X = dyn_cast<UnaryOperator>(E)) {
            O["k"] = "un";
            O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode());
            if (X->isPostfix()) O["post"] = true;
            O["e"] = expr(X->getSubExpr());
        } else if (auto *X = dyn_cast<CompoundAssignOperator>(E)) {
            O["k"] = "opassign";
            std::string op = X->getOpcodeStr().str();
            O["op"] = op.substr(0, op.size() - 1);
            O["a"] = expr(X->getLHS());
            O["b"] = expr(X->getRHS());
            O["ct"] = type(X->getComputationResultType());
            O["lt"] = type(X->getComputationLHSType());
        } else if (auto *X = dyn_cast<BinaryOperator>(E)) {
            O["k"] = "bin";
            O["op"] = X->getOpcodeStr();
            O["a"] = expr(X->getLHS());
            O["b"] = expr(X->getRHS());
        } else if (auto *X = dyn_cast<ConditionalOperator>(E)) {
            O["k"] = "cond";
            O["c"] = expr(X->getCond());
            O["a"] = expr(X->getTrueExpr());
            O["b"] = expr(X->getFalseExpr());
        } else if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
            O["k"] = "index";
            O["a"] = expr(X->getBase());
            O["b"] = expr(X->getIdx());
        } else if (auto *X = dyn_cast<InitListExpr>(E)) {
            O["k"] = "initlist";
            const InitListExpr *Sem = X->isSemanticForm() ? X : (X->getSemanticForm() ? X->getSemanticForm() : X);
            O["args"] = exprs(Sem->inits());
        } else if (auto *X = dyn_cast<LambdaExpr>(E)) {
            O["k"] = "lambda";
            const CXXRecordDecl *L = X->getLambdaClass();
            O["rid"] = declId(L);
            record(L);
            Array Caps;
            auto ii = X->capture_init_begin();
            auto fi = L->field_begin();
            for (auto &c : X->captures()) {
                Object co;
                if (c.capturesThis()) co["this"] = true;
                else if (c.capturesVariable()) {
                    co["id"] = declId(c.getCapturedVar());
                    co["name"] = c.getCapturedVar()->getNameAsString();
                    co["vt"] = type(c.getCapturedVar()->getType());
                }
                co["byref"] = c.getCaptureKind() == LCK_ByRef;
                if (ii != X->capture_init_end()) co["init"] = expr(*ii);
                ++ii;
                Caps.push_back(std::move(co));
            }
            O["caps"] = std::move(Caps);
            if (auto *Op = X->getCallOperator()) {
                Array Ops;
                if (auto *FT = Op->getDescribedFunctionTemplate()) {
                    for (auto *S : FT->specializations()) { want(S); Ops.push_back(declId(S)); }
                } else { want(Op); Ops.push_back(declId(Op)); }
                O["ops"] = std::move(Ops);
            }
        } else if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
            O["k"] = "throw";
            O["e"] = expr(X->getSubExpr());
            if (X->getSubExpr()) O["et"] = type(X->getSubExpr()->getType());
        } else if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
            Expr::EvalResult R;
            O["k"] = "int";
            if (X->EvaluateAsInt(R, C)) O["v"] = iv(R.Val.getInt());
            else O["k"] = "unk";
        } else if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) {
            O["k"] = "zeroinit";
        } else if (auto *X = dyn_cast<TypeTraitExpr>(E)) {
            O["k"] = "bool";
            O["v"] = X->getValue();
        } else if (auto *X = dyn_cast<SizeOfPackExpr>(E)) {
            O["k"] = "int";
            O["v"] = (int64_t)X->getPackLength();
        } else if (auto *X = dyn_cast<CXXNoexceptExpr>(E)) {
            O["k"] = "bool";
            O["v"] = X->getValue();
        } else if (auto *X = dyn_cast<CXXFoldExpr>(E)) {
            O["k"] = "unk";
            O["cls"] = "CXXFoldExpr";
        } else if (auto *X = dyn_cast<CXXNewExpr>(E)) {
            O["k"] = "new";
            if (X->isArray() && X->getArraySize()) O["n"] = expr(*X->getArraySize());
            if (X->getInitializer()) O["init"] = expr(X->getInitializer());
        } else if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
            O["k"] = "delete";
            O["e"] = expr(X->getArgument());
        } else if (auto *X = dyn_cast<ConceptSpecializationExpr>(E)) {
            O["k"] = "bool";
            O["v"] = X->isSatisfied();
        } else if (auto *X = dyn_cast<RequiresExpr>(E)) {
            O["k"] = "bool";
            O["v"] = X->isSatisfied();
        } else if (auto *X = dyn_cast<OpaqueValueExpr>(E)) {
            return expr(X->getSourceExpr());
        } else if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
            O["k"] = "unk";
            O["cls"] = "CXXInheritedCtorInitExpr";
        } else if (auto *X = dyn_cast<CXXParenListInitExpr>(E)) {
            O["k"] = "initlist";
            O["args"] = exprs(X->getInitExprs());
        } else {
            O["k"] = "unk";
            O["cls"] = E->getStmtClassName();
            Array Ch;
            for (auto *c : E->children())
                if (auto *ce = dyn_cast_or_null<Expr>(c)) Ch.push_back(expr(ce));
            O["ch"] = std::move(Ch);
        }
        return O;
    }

    Object var(const VarDecl *V) {
        Object O{{"id", declId(V)}, {"name", V->getNameAsString()}, {"t", type(V->getType())}, {"l", lineOf(V->getLocation())}};
        if (V->isStaticLocal()) O["static"] = true;
        if (V->isConstexpr()) O["constexpr"] = true;
        if (V->getInit()) O["init"] = expr(V->getInit());
        return O;
    }

    Value stmt(const Stmt *S) {
        if (!S) return nullptr;
        if (auto *E = dyn_cast<Expr>(S)) {
            Object O{{"k", "expr"}, {"l", lineOf(E->getExprLoc())}, {"e", expr(E)}};
            return O;
        }
        Object O;
        O["l"] = lineOf(S->getBeginLoc());
        if (auto *X = dyn_cast<CompoundStmt>(S)) {
            O["k"] = "block";
            Array A;
            for (auto *c : X->body()) A.push_back(stmt(c));
            O["body"] = std::move(A);
        } else if (auto *X = dyn_cast<DeclStmt>(S)) {
            O["k"] = "decl";
            Array A;
            for (auto *d : X->decls()) {
                if (auto *DD = dyn_cast<DecompositionDecl>(d)) {
                    Object v = var(DD);
                    Array B;
                    for (auto *b : DD->bindings()) {
                        Object bo{{"name", b->getNameAsString()}};
                        if (auto *hv = b->getHoldingVar()) { bo["holding"] = var(hv); }
                        B.push_back(std::move(bo));
                    }
                    v["bindings"] = std::move(B);
                    A.push_back(std::move(v));
                } else if (auto *v = dyn_cast<VarDecl>(d)) A.push_back(var(v));
            }
            O["vars"] = std::move(A);
        } else if (auto *X = dyn_cast<IfStmt>(S)) {
            if (X->isConstexpr()) {
                if (auto ns = X->getNondiscardedCase(C)) {
                    if (*ns) {
                        O["k"] = "block";
                        Array A;
                        if (X->getInit()) A.push_back(stmt(X->getInit()));
                        A.push_back(stmt(*ns));
                        O["body"] = std::move(A);
                    } else O["k"] = "null";
                    return O;
                }
            }
            O["k"] = "if";
            if (X->getInit()) O["init"] = stmt(X->getInit());
            if (X->getConditionVariableDeclStmt()) O["cvar"] = stmt(X->getConditionVariableDeclStmt());
            O["c"] = expr(X->getCond());
            O["a"] = stmt(X->getThen());
            O["b"] = stmt(X->getElse());
        } else if (auto *X = dyn_cast<ForStmt>(S)) {
            O["k"] = "for";
            O["init"] = stmt(X->getInit());
            O["c"] = X->getCond() ? expr(X->getCond()) : Value(nullptr);
            O["inc"] = X->getInc() ? expr(X->getInc()) : Value(nullptr);
            O["body"] = stmt(X->getBody());
        } else if (auto *X = dyn_cast<WhileStmt>(S)) {
            O["k"] = "while";
            if (X->getConditionVariableDeclStmt()) O["cvar"] = stmt(X->getConditionVariableDeclStmt());
            O["c"] = expr(X->getCond());
            O["body"] = stmt(X->getBody());
        } else if (auto *X = dyn_cast<DoStmt>(S)) {
            O["k"] = "do";
            O["c"] = expr(X->getCond());
            O["body"] = stmt(X->getBody());
        } else if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
            O["k"] = "rangefor";
            Array A;
            if (X->getInit()) A.push_back(stmt(X->getInit()));
            A.push_back(stmt(X->getRangeStmt()));
            A.push_back(stmt(X->getBeginStmt()));
            A.push_back(stmt(X->getEndStmt()));
            O["inits"] = std::move(A);
            O["c"] = expr(X->getCond());
            O["inc"] = expr(X->getInc());
            O["var"] = stmt(X->getLoopVarStmt());
            O["body"] = stmt(X->getBody());
        } else if (auto *X = dyn_cast<SwitchStmt>(S)) {
            O["k"] = "switch";
            if (X->getInit()) O["init"] = stmt(X->getInit());
            O["c"] = expr(X->getCond());
            O["body"] = stmt(X->getBody());
        } else if (auto *X = dyn_cast<CaseStmt>(S)) {
            O["k"] = "case";
            Expr::EvalResult R;
            if (X->getLHS()->EvaluateAsInt(R, C)) O["v"] = iv(R.Val.getInt());
            if (X->getRHS() && X->getRHS()->EvaluateAsInt(R, C)) O["hi"] = iv(R.Val.getInt());
            O["body"] = stmt(X->getSubStmt());
        } else if (auto *X = dyn_cast<DefaultStmt>(S)) {
            O["k"] = "default";
            O["body"] = stmt(X->getSubStmt());
        } else if (isa<BreakStmt>(S)) O["k"] = "break";
        else if (isa<ContinueStmt>(S)) O["k"] = "continue";
        else if (auto *X = dyn_cast<ReturnStmt>(S)) {
            O["k"] = "return";
            O["e"] = X->getRetValue() ? expr(X->getRetValue()) : Value(nullptr);
        } else if (isa<NullStmt>(S)) O["k"] = "null";
        else if (auto *X = dyn_cast<CXXTryStmt>(S)) {
            O["k"] = "try";
            O["body"] = stmt(X->getTryBlock());
            Array A;
            for (unsigned i = 0; i < X->getNumHandlers(); ++i) {
                auto *H = X->getHandler(i);
                Object h{{"t", H->getExceptionDecl() ? type(H->getCaughtType()) : -1}, {"body", stmt(H->getHandlerBlock())}};
                A.push_back(std::move(h));
            }
            O["handlers"] = std::move(A);
        } else if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
        else {
            O["k"] = "unk";
            O["cls"] = S->getStmtClassName();
        }
        return O;
    }

    void function(const FunctionDecl *F) {
        Object O = fnRef(F);
        O["file"] = fileOf(F->getLocation());
        O["line"] = lineOf(F->getLocation());
        O["access"] = acc(F->getAccess());
        O["deleted"] = F->isDeleted();
        std::string disp;
        {
            llvm::raw_string_ostream os(disp);
            F->getNameForDiagnostic(os, PP, true);
        }
        O["disp"] = disp;
        Array P;
        for (auto *p : F->parameters()) {
            Object po{{"id", declId(p)}, {"name", p->getNameAsString()}, {"t", type(p->getType())}, {"hasdef", p->hasDefaultArg()}};
            if (p->hasDefaultArg() && !p->hasUnparsedDefaultArg()) {
                const Expr *D = p->hasUninstantiatedDefaultArg() ? p->getUninstantiatedDefaultArg() : p->getDefaultArg();
                if (D && !D->isTypeDependent() && !D->isValueDependent()) po["def"] = expr(D);
            }
            P.push_back(std::move(po));
        }
        O["params"] = std::move(P);
        if (F->getFriendObjectKind() != Decl::FOK_None) O["friend"] = true;
        if (F->isTemplateInstantiation() || F->getPrimaryTemplate()) O["inst"] = true;
        if (F->getPrimaryTemplate()) O["tmpl"] = true;
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            if (M->getParent()->isLambda()) O["lambda"] = true;
            if (auto *CD = dyn_cast<CXXConstructorDecl>(M)) {
                O["ctor"] = true;
                O["explicit"] = CD->isExplicit();
                Array I;
                for (auto *in : CD->inits()) {
                    Object io;
                    if (in->isAnyMemberInitializer()) {
                        io["field"] = in->getAnyMember()->getNameAsString();
                        io["id"] = declId(in->getAnyMember());
                        io["ft"] = type(in->getAnyMember()->getType());
                    } else if (in->isBaseInitializer()) io["base"] = type(QualType(in->getBaseClass(), 0));
                    else if (in->isDelegatingInitializer()) io["delegating"] = true;
                    io["written"] = in->isWritten();
                    io["e"] = expr(in->getInit());
                    I.push_back(std::move(io));
                }
                O["inits"] = std::move(I);
            }
            if (isa<CXXConversionDecl>(M)) O["conversion"] = true;
        }
        if (F->doesThisDeclarationHaveABody() && !F->isDefaulted()) O["body"] = stmt(F->getBody());
        Functions.push_back(std::move(O));
    }
};

struct V : RecursiveASTVisitor<V> {
    Exporter &X;
    V(Exporter &X) : X(X) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl *F) {
        if (F->isDependentContext()) return true;
        if (F->isThisDeclarationADefinition() || F->isDefaulted()) X.want(F);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *R) {
        if (!R->isDependentContext() && R->isThisDeclarationADefinition()) X.record(R);
        return true;
    }
};

struct Consumer : ASTConsumer {
    void HandleTranslationUnit(ASTContext &C) override {
        if (C.getDiagnostics().hasErrorOccurred()) return;
        Exporter X(C);
        V v(X);
        v.TraverseDecl(C.getTranslationUnitDecl());
        while (!X.Queue.empty()) {
            auto *F = X.Queue.back();
            X.Queue.pop_back();
            X.function(F);
        }
        Object O;
        O["types"] = std::move(X.Types);
        O["functions"] = std::move(X.Functions);
        O["records"] = std::move(X.Records);
        std::error_code ec;
        llvm::raw_fd_ostream os(OutFile, ec);
        os << Value(std::move(O));
    }
};
struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};

int main(int argc, const char **argv) {
    if (argc < 4) return 2;
    OutFile = argv[1];
    Root = argv[2];
    std::string src = argv[3];
    std::vector<std::string> flags;
    for (int i = 4; i < argc; ++i)
        if (std::string(argv[i]) != "--") flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase DB(".", flags);
    tooling::ClangTool Tool(DB, {src});
    return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
