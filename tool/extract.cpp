// Fact extractor: parses one translation unit with clang and dumps, as JSON lines, the resolved
// program (functions incl. template instantiations and lambdas, records, declarations).
// Nothing is executed; no source text is compared.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string RepoRoot;          // functions located under one of these roots are dumped
static std::vector<std::string> Roots;
static std::string TuTag;
static llvm::raw_ostream* Out;

namespace {

class Dumper {
public:
    ASTContext& C;
    PrintingPolicy PP;
    std::unique_ptr<ASTNameGenerator> NG;
    std::map<const void*, int> typeIds;
    std::set<std::string> declsDone;
    std::set<const Decl*> recsDone;
    std::set<const FunctionDecl*> fnsDone;
    std::vector<const FunctionDecl*> work;
    std::map<const Decl*, int> localIds;
    int fnCount = 0;

    explicit Dumper(ASTContext& C) : C(C), PP(C.getLangOpts()), NG(new ASTNameGenerator(C)) {
        PP.SuppressTagKeyword = true;
        PP.Bool = true;
        PP.SuppressUnwrittenScope = false;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
    }

    void emit(Object O) { *Out << Value(std::move(O)) << "\n"; }

    std::string fileOf(SourceLocation L) {
        auto& SM = C.getSourceManager();
        L = SM.getExpansionLoc(L);
        auto F = SM.getFilename(L);
        return F.str();
    }
    int lineOf(SourceLocation L) {
        auto& SM = C.getSourceManager();
        return (int)SM.getExpansionLineNumber(L);
    }
    bool inRepo(SourceLocation L) {
        auto f = fileOf(L);
        for (auto& r : Roots) if (f.compare(0, r.size(), r) == 0) return true;
        return false;
    }
    int localId(const Decl* D) {
        auto it = localIds.find(D->getCanonicalDecl());
        if (it != localIds.end()) return it->second;
        int n = (int)localIds.size() + 1;
        localIds[D->getCanonicalDecl()] = n;
        return n;
    }

    static std::string qn(const NamedDecl* D) {
        std::string s;
        llvm::raw_string_ostream os(s);
        PrintingPolicy P{LangOptions()};
        P.SuppressUnwrittenScope = true;
        P.TerseOutput = true;
        D->printQualifiedName(os, P);
        return os.str();
    }

    int type(QualType T) {
        T = T.getCanonicalType();
        void* key = T.getAsOpaquePtr();
        auto it = typeIds.find(key);
        if (it != typeIds.end()) return it->second;
        int id = (int)typeIds.size() + 1;
        typeIds[key] = id;
        Object O{{"T", "type"}, {"id", id}};
        O["const"] = T.isConstQualified();
        std::string kind = "other";
        if (T->isLValueReferenceType()) kind = "lref";
        else if (T->isRValueReferenceType()) kind = "rref";
        else if (T->isPointerType()) kind = "ptr";
        else if (T->isBooleanType()) kind = "bool";
        else if (T->isEnumeralType()) kind = "enum";
        else if (T->isIntegerType()) kind = "int";
        else if (T->isRealFloatingType()) kind = "float";
        else if (T->isVoidType()) kind = "void";
        else if (T->isRecordType()) kind = "rec";
        else if (T->isArrayType()) kind = "arr";
        else if (T->isFunctionType()) kind = "fn";
        else if (T->isDependentType()) kind = "dep";
        O["k"] = kind;
        std::string s;
        if (!T->isDependentType()) s = T.getAsString(PP);
        if (s.size() > 400) s = s.substr(0, 400);
        O["s"] = s;
        if (kind == "int") O["unsigned"] = T->isUnsignedIntegerType();
        if ((kind == "int" || kind == "float" || kind == "bool") && !T->isIncompleteType())
            O["bits"] = (int)C.getTypeSize(T);
        if (kind == "lref" || kind == "rref") O["to"] = type(T->getPointeeType());
        if (kind == "ptr") O["to"] = type(T->getPointeeType());
        if (kind == "arr") {
            O["to"] = type(C.getAsArrayType(T)->getElementType());
            if (auto* CA = C.getAsConstantArrayType(T)) O["n"] = (int64_t)CA->getSize().getZExtValue();
        }
        if (kind == "enum") O["rec"] = qn(T->getAs<EnumType>()->getDecl());
        if (auto* RD = T->getAsCXXRecordDecl()) {
            O["rec"] = qn(RD);
            if (RD->isLambda()) {
                O["lambda"] = true;
            }
            if (auto* S = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
                Array A;
                std::function<void(ArrayRef<TemplateArgument>)> rec = [&](ArrayRef<TemplateArgument> args) {
                    for (auto& TA : args) {
                        if (TA.getKind() == TemplateArgument::Type) A.push_back(type(TA.getAsType()));
                        else if (TA.getKind() == TemplateArgument::Integral) A.push_back(std::string(llvm::toString(TA.getAsIntegral(), 10)));
                        else if (TA.getKind() == TemplateArgument::Pack) rec(TA.pack_elements());
                        else if (TA.getKind() == TemplateArgument::Template) {
                            if (auto* TD = TA.getAsTemplate().getAsTemplateDecl()) A.push_back(qn(TD));
                        }
                        else A.push_back(nullptr);
                    }
                };
                rec(S->getTemplateArgs().asArray());
                O["targs"] = std::move(A);
            }
            if (RD->isCompleteDefinition() || RD->getDefinition()) {
                record(RD->getDefinition() ? RD->getDefinition() : RD);
                O["rid"] = recId(RD);
            }
        }
        emit(std::move(O));
        return id;
    }

    std::string recId(const CXXRecordDecl* RD) {
        RD = RD->getCanonicalDecl();
        if (RD->isLambda() || !RD->isExternallyVisible())
            return TuTag + ":R" + std::to_string(localId(RD));
        return NG->getName(RD).empty() ? qn(RD) + "@" + C.getRecordType(RD).getCanonicalType().getAsString(PP)
                                       : C.getRecordType(RD).getCanonicalType().getAsString(PP);
    }

    void record(const CXXRecordDecl* RD) {
        if (!RD || !recsDone.insert(RD->getCanonicalDecl()).second) return;
        if (RD->isDependentType()) return;
        Object O{{"T", "rec"}, {"id", recId(RD)}, {"qn", qn(RD)}};
        O["file"] = fileOf(RD->getLocation());
        O["line"] = lineOf(RD->getLocation());
        bool repo = inRepo(RD->getLocation());
        O["repo"] = repo;
        if (RD->isLambda()) {
            O["lambda"] = true;
            if (auto* M = RD->getLambdaCallOperator()) O["callop"] = fnId(M);
        }
        if (repo) {
            Array F;
            for (auto* FD : RD->fields()) {
                Object fo{{"n", FD->getNameAsString()}, {"t", type(FD->getType())}};
                fo["mutable"] = FD->isMutable();
                fo["access"] = (int)FD->getAccess();
                F.push_back(std::move(fo));
            }
            O["fields"] = std::move(F);
            Array SM;
            for (auto* D : RD->decls())
                if (auto* V = dyn_cast<VarDecl>(D))
                    SM.push_back(Object{{"n", V->getNameAsString()}, {"t", type(V->getType())}});
            O["statics"] = std::move(SM);
            Array B;
            if (RD->hasDefinition())
                for (auto& b : RD->bases()) B.push_back(type(b.getType()));
            O["bases"] = std::move(B);
            Array M;
            std::function<void(const Decl*)> addM = [&](const Decl* D) {
                if (auto* MD = dyn_cast<CXXMethodDecl>(D)) {
                    Object mo{{"id", fnId(MD)}, {"n", MD->getNameAsString()}};
                    mo["access"] = (int)MD->getAccess();
                    mo["const"] = MD->isConst();
                    mo["static"] = MD->isStatic();
                    mo["virtual"] = MD->isVirtual();
                    mo["implicit"] = MD->isImplicit();
                    mo["deleted"] = MD->isDeleted();
                    mo["defaulted"] = MD->isDefaulted();
                    Array ov;
                    for (auto* o : MD->overridden_methods()) ov.push_back(fnId(o));
                    mo["overrides"] = std::move(ov);
                    if (isa<CXXConstructorDecl>(MD)) mo["ctor"] = true;
                    if (isa<CXXDestructorDecl>(MD)) mo["dtor"] = true;
                    M.push_back(std::move(mo));
                    decl(MD);
                } else if (auto* FT = dyn_cast<FunctionTemplateDecl>(D)) {
                    for (auto* S : FT->specializations()) {
                        if (auto* MD = dyn_cast<CXXMethodDecl>(S)) {
                            Object mo{{"id", fnId(MD)}, {"n", MD->getNameAsString()}};
                            mo["access"] = (int)MD->getAccess();
                            mo["const"] = MD->isConst();
                            mo["static"] = MD->isStatic();
                            mo["virtual"] = false;
                            mo["implicit"] = MD->isImplicit();
                            mo["deleted"] = MD->isDeleted();
                            mo["defaulted"] = MD->isDefaulted();
                            mo["tmpl"] = true;
                            mo["overrides"] = Array{};
                            if (isa<CXXConstructorDecl>(MD)) mo["ctor"] = true;
                            M.push_back(std::move(mo));
                            decl(MD);
                        }
                    }
                }
            };
            for (auto* D : RD->decls()) addM(D);
            O["methods"] = std::move(M);
            if (auto* DD = RD->hasDefinition() ? RD->getDestructor() : nullptr) {
                O["dtor"] = fnId(DD);
                decl(DD);
            }
        } else if (RD->hasDefinition()) {
            Array B;
            for (auto& b : RD->bases()) if (!b.getType()->isDependentType()) B.push_back(type(b.getType()));
            O["bases"] = std::move(B);
        }
        emit(std::move(O));
    }

    std::string fnId(const FunctionDecl* FD) {
        FD = FD->getCanonicalDecl();
        bool local = !FD->isExternallyVisible();
        if (!local) {
            // class types with local/closure template arguments
            if (auto* MD = dyn_cast<CXXMethodDecl>(FD))
                if (MD->getParent()->isLambda() || !MD->getParent()->isExternallyVisible()) local = true;
        }
        if (isa<CXXDeductionGuideDecl>(FD)) local = true;
        if (!local) {
            std::string n;
            if (isa<CXXConstructorDecl>(FD) || isa<CXXDestructorDecl>(FD)) {
                auto v = NG->getAllManglings(FD);
                if (!v.empty()) n = v.back();
            } else {
                n = NG->getName(FD);
            }
            if (!n.empty()) return n;
        }
        return TuTag + ":F" + std::to_string(localId(FD));
    }

    void decl(const FunctionDecl* FD) {
        auto id = fnId(FD);
        if (!declsDone.insert(id).second) return;
        Object O{{"T", "decl"}, {"id", id}, {"qn", qn(FD)}, {"n", FD->getNameAsString()}};
        Array P;
        for (auto* p : FD->parameters()) P.push_back(type(p->getType()));
        O["params"] = std::move(P);
        O["ret"] = type(FD->getReturnType());
        O["variadic"] = FD->isVariadic();
        O["noreturn"] = FD->isNoReturn();
        O["op"] = FD->isOverloadedOperator() ? std::string(getOperatorSpelling(FD->getOverloadedOperator())) : std::string();
        if (auto* TAL = FD->getTemplateSpecializationArgs()) {
            Array A;
            std::function<void(ArrayRef<TemplateArgument>)> rec = [&](ArrayRef<TemplateArgument> args) {
                for (auto& TA : args) {
                    if (TA.getKind() == TemplateArgument::Type) A.push_back(type(TA.getAsType()));
                    else if (TA.getKind() == TemplateArgument::Pack) rec(TA.pack_elements());
                    else A.push_back(nullptr);
                }
            };
            rec(TAL->asArray());
            O["targs"] = std::move(A);
        }
        if (auto* MD = dyn_cast<CXXMethodDecl>(FD)) {
            O["method"] = !MD->isStatic();
            O["const"] = MD->isConst();
            O["static"] = MD->isStatic();
            O["virtual"] = MD->isVirtual();
            O["pure"] = MD->isPureVirtual();
            O["access"] = (int)MD->getAccess();
            O["cls"] = qn(MD->getParent());
            O["clsid"] = recId(MD->getParent());
            O["clst"] = type(C.getRecordType(MD->getParent()));
            O["implicit"] = MD->isImplicit() || MD->isDefaulted();
            O["copyassign"] = MD->isCopyAssignmentOperator();
            O["moveassign"] = MD->isMoveAssignmentOperator();
            O["conv"] = isa<CXXConversionDecl>(MD);
            if (auto* CD = dyn_cast<CXXConstructorDecl>(MD)) {
                O["ctor"] = true;
                O["copyctor"] = CD->isCopyConstructor();
                O["movector"] = CD->isMoveConstructor();
            }
            if (isa<CXXDestructorDecl>(MD)) O["dtor"] = true;
            O["deleted"] = MD->isDeleted();
        } else {
            O["method"] = false;
        }
        bool repo = inRepo(FD->getLocation());
        O["repo"] = repo;
        O["file"] = fileOf(FD->getLocation());
        O["line"] = lineOf(FD->getLocation());
        emit(std::move(O));
        const FunctionDecl* Def = nullptr;
        if (repo && FD->hasBody(Def)) work.push_back(Def);
    }

    // ---------------------------------------------------------------- expressions
    Value lit(const std::string& kind, Value v, QualType T) {
        return Object{{"k", "lit"}, {"lk", kind}, {"v", std::move(v)}, {"t", type(T)}};
    }

    Value none() { return nullptr; }

    Object callBase(const FunctionDecl* FD) {
        decl(FD);
        Object O{{"k", "call"}, {"f", fnId(FD)}};
        return O;
    }

    Value expr(const Expr* E) {
        if (!E) return nullptr;
        // strip wrappers
        for (;;) {
            if (auto* X = dyn_cast<ParenExpr>(E)) { E = X->getSubExpr(); continue; }
            if (auto* X = dyn_cast<FullExpr>(E)) { E = X->getSubExpr(); continue; }
            if (auto* X = dyn_cast<MaterializeTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
            if (auto* X = dyn_cast<CXXBindTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
            if (auto* X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = X->getReplacement(); continue; }
            if (auto* X = dyn_cast<CXXDefaultArgExpr>(E)) { E = X->getExpr(); continue; }
            if (auto* X = dyn_cast<CXXDefaultInitExpr>(E)) { E = X->getExpr(); continue; }
            if (auto* X = dyn_cast<CXXStdInitializerListExpr>(E)) { E = X->getSubExpr(); continue; }
            if (auto* X = dyn_cast<OpaqueValueExpr>(E)) { if (X->getSourceExpr()) { E = X->getSourceExpr(); continue; } }
            if (auto* X = dyn_cast<ImplicitCastExpr>(E)) {
                switch (X->getCastKind()) {
                case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay:
                case CK_UserDefinedConversion: case CK_ConstructorConversion: case CK_BuiltinFnToFnPtr:
                case CK_ArrayToPointerDecay:
                    E = X->getSubExpr(); continue;
                case CK_DerivedToBase: case CK_UncheckedDerivedToBase:
                    E = X->getSubExpr(); continue;
                default: break;
                }
            }
            break;
        }
        int L = lineOf(E->getExprLoc());
        auto fin = [&](Object O) -> Value { if (!O.get("l")) O["l"] = L; if (!O.get("t")) O["t"] = type(E->getType()); return O; };

        if (auto* X = dyn_cast<IntegerLiteral>(E)) return lit("int", std::string(llvm::toString(X->getValue(), 10, X->getType()->isSignedIntegerType())), E->getType());
        if (auto* X = dyn_cast<CXXBoolLiteralExpr>(E)) return lit("bool", X->getValue(), E->getType());
        if (auto* X = dyn_cast<FloatingLiteral>(E)) return lit("float", X->getValueAsApproximateDouble(), E->getType());
        if (auto* X = dyn_cast<CharacterLiteral>(E)) return lit("char", (int64_t)X->getValue(), E->getType());
        if (auto* X = dyn_cast<StringLiteral>(E)) return lit("str", X->isOrdinary() || X->isUTF8() ? Value(llvm::json::fixUTF8(X->getString())) : Value("?"), E->getType());
        if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return lit("null", nullptr, E->getType());
        if (isa<CXXThisExpr>(E)) return fin(Object{{"k", "this"}});
        if (auto* X = dyn_cast<CXXScalarValueInitExpr>(E)) return fin(Object{{"k", "zero"}});
        if (auto* X = dyn_cast<ImplicitValueInitExpr>(E)) return fin(Object{{"k", "zero"}});
        if (auto* X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
            Expr::EvalResult R;
            if (!E->isValueDependent() && E->EvaluateAsInt(R, C))
                return lit("int", std::string(llvm::toString(R.Val.getInt(), 10)), E->getType());
            return fin(Object{{"k", "unk"}, {"w", "sizeof"}});
        }
        if (auto* X = dyn_cast<TypeTraitExpr>(E)) return lit("bool", X->isValueDependent() ? false : X->getValue(), E->getType());
        if (auto* X = dyn_cast<DeclRefExpr>(E)) {
            auto* D = X->getDecl();
            Object O{{"k", "ref"}, {"n", D->getNameAsString()}};
            if (auto* FD = dyn_cast<FunctionDecl>(D)) { decl(FD); O["dk"] = "fn"; O["f"] = fnId(FD); }
            else if (auto* EC = dyn_cast<EnumConstantDecl>(D)) {
                O["dk"] = "enum"; O["qn"] = qn(EC);
                O["v"] = std::string(llvm::toString(EC->getInitVal(), 10));
            } else if (auto* VD = dyn_cast<VarDecl>(D)) {
                if (VD->isLocalVarDeclOrParm() && !VD->isStaticLocal()) {
                    O["dk"] = isa<ParmVarDecl>(VD) ? "param" : "local";
                    O["d"] = localId(VD);
                } else {
                    O["dk"] = VD->isStaticLocal() ? "static" : "global";
                    O["qn"] = VD->isStaticLocal() ? VD->getNameAsString() + "@static" : qn(VD);
                    O["d"] = localId(VD);
                    O["vt"] = type(VD->getType());
                    O["repo"] = inRepo(VD->getLocation());
                    Expr::EvalResult R;
                    if (VD->getType().isConstQualified() && VD->getType()->isIntegralOrEnumerationType() &&
                        !E->isValueDependent() && E->EvaluateAsInt(R, C))
                        O["v"] = std::string(llvm::toString(R.Val.getInt(), 10));
                }
            } else { O["dk"] = "other"; }
            return fin(std::move(O));
        }
        if (auto* X = dyn_cast<MemberExpr>(E)) {
            auto* D = X->getMemberDecl();
            if (auto* VD = dyn_cast<VarDecl>(D)) {
                Object O{{"k", "ref"}, {"dk", "global"}, {"n", VD->getNameAsString()}, {"qn", qn(VD)}};
                Expr::EvalResult R;
                if (!E->isValueDependent() && E->getType()->isIntegralOrEnumerationType() && E->EvaluateAsInt(R, C))
                    O["v"] = std::string(llvm::toString(R.Val.getInt(), 10));
                return fin(std::move(O));
            }
            if (auto* EC = dyn_cast<EnumConstantDecl>(D))
                return fin(Object{{"k", "ref"}, {"dk", "enum"}, {"n", EC->getNameAsString()}, {"qn", qn(EC)}, {"v", std::string(llvm::toString(EC->getInitVal(), 10))}});
            if (auto* MD = dyn_cast<CXXMethodDecl>(D)) {
                decl(MD);
                return fin(Object{{"k", "bound"}, {"f", fnId(MD)}, {"b", expr(X->getBase())}});
            }
            Object O{{"k", "mem"}, {"b", expr(X->getBase())}, {"n", D->getNameAsString()}, {"arrow", X->isArrow()}};
            if (auto* FD = dyn_cast<FieldDecl>(D)) O["cls"] = qn(FD->getParent());
            return fin(std::move(O));
        }
        if (auto* X = dyn_cast<ArraySubscriptExpr>(E))
            return fin(Object{{"k", "index"}, {"b", expr(X->getBase())}, {"i", expr(X->getIdx())}});
        if (auto* X = dyn_cast<CXXMemberCallExpr>(E)) {
            if (auto* MD = X->getMethodDecl()) {
                Object O = callBase(MD);
                O["ck"] = "method";
                O["o"] = expr(X->getImplicitObjectArgument());
                bool arrow = false;
                bool qual = false;
                if (auto* ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) { arrow = ME->isArrow(); qual = ME->hasQualifier(); }
                O["arrow"] = arrow;
                O["qual"] = qual;
                Array A; for (auto* a : X->arguments()) A.push_back(expr(a));
                O["a"] = std::move(A);
                return fin(std::move(O));
            }
            Array A; for (auto* a : X->arguments()) A.push_back(expr(a));
            return fin(Object{{"k", "call"}, {"ck", "indirect"}, {"callee", expr(X->getCallee())}, {"a", std::move(A)}});
        }
        if (auto* X = dyn_cast<CXXOperatorCallExpr>(E)) {
            if (auto* FD = X->getDirectCallee()) {
                Object O = callBase(FD);
                O["op"] = std::string(getOperatorSpelling(X->getOperator()));
                Array A;
                unsigned i = 0;
                if (auto* MD = dyn_cast<CXXMethodDecl>(FD); MD && !MD->isStatic()) {
                    O["ck"] = "method";
                    O["o"] = expr(X->getArg(0));
                    i = 1;
                } else {
                    O["ck"] = "fn";
                }
                for (; i < X->getNumArgs(); ++i) A.push_back(expr(X->getArg(i)));
                O["a"] = std::move(A);
                return fin(std::move(O));
            }
        }
        if (auto* X = dyn_cast<UserDefinedLiteral>(E)) {
            if (auto* FD = X->getDirectCallee()) {
                Object O = callBase(FD);
                O["ck"] = "fn";
                Array A; for (auto* a : X->arguments()) A.push_back(expr(a));
                O["a"] = std::move(A);
                return fin(std::move(O));
            }
        }
        if (auto* X = dyn_cast<CallExpr>(E)) {
            Array A; for (auto* a : X->arguments()) A.push_back(expr(a));
            if (auto* FD = X->getDirectCallee()) {
                Object O = callBase(FD);
                O["ck"] = "fn";
                O["a"] = std::move(A);
                return fin(std::move(O));
            }
            return fin(Object{{"k", "call"}, {"ck", "indirect"}, {"callee", expr(X->getCallee())}, {"a", std::move(A)}});
        }
        if (auto* X = dyn_cast<CXXConstructExpr>(E)) {
            auto* CD = X->getConstructor();
            Array A; for (auto* a : X->arguments()) A.push_back(expr(a));
            if (CD->isCopyOrMoveConstructor() && X->getNumArgs() >= 1 && (CD->isDefaulted() || !inRepo(CD->getLocation()))) {
                Object O{{"k", "copy"}, {"x", expr(X->getArg(0))}, {"move", CD->isMoveConstructor()}};
                return fin(std::move(O));
            }
            Object O = callBase(CD);
            O["k"] = "ctor";
            O["a"] = std::move(A);
            O["list"] = X->isListInitialization();
            O["zi"] = X->requiresZeroInitialization();
            return fin(std::move(O));
        }
        if (auto* X = dyn_cast<CXXInheritedCtorInitExpr>(E)) return fin(Object{{"k", "unk"}, {"w", "inherited"}});
        if (auto* X = dyn_cast<InitListExpr>(E)) {
            if (X->isSyntacticForm() == false || true) {
                auto* S = X->isSemanticForm() ? X : X->getSemanticForm();
                if (!S) S = X;
                Array A;
                for (auto* i : S->inits()) A.push_back(expr(i));
                Object O{{"k", "init"}, {"a", std::move(A)}};
                if (S->isTransparent() && S->getNumInits() == 1) return expr(S->getInit(0));
                if (auto* RD = E->getType()->getAsCXXRecordDecl()) {
                    Array F;
                    for (auto& b : RD->bases()) { (void)b; F.push_back("<base>"); }
                    for (auto* f : RD->fields()) F.push_back(f->getNameAsString());
                    O["fs"] = std::move(F);
                }
                return fin(std::move(O));
            }
        }
        if (auto* X = dyn_cast<LambdaExpr>(E)) {
            auto* MD = X->getCallOperator();
            decl(MD);
            const FunctionDecl* FD = MD;
            work.push_back(FD);
            Object O{{"k", "lambda"}, {"f", fnId(MD)}, {"rec", recId(X->getLambdaClass())}};
            record(X->getLambdaClass());
            Array Caps;
            auto init = X->capture_init_begin();
            for (auto& c : X->captures()) {
                Object co;
                if (c.capturesThis()) { co["this"] = true; co["byref"] = c.getCaptureKind() == LCK_This; }
                else if (c.capturesVariable()) {
                    co["d"] = localId(c.getCapturedVar());
                    co["n"] = c.getCapturedVar()->getNameAsString();
                    co["byref"] = c.getCaptureKind() == LCK_ByRef;
                    if (c.getCaptureKind() != LCK_ByRef) co["init"] = expr(*init);
                }
                Caps.push_back(std::move(co));
                ++init;
            }
            O["caps"] = std::move(Caps);
            O["generic"] = X->isGenericLambda();
            return fin(std::move(O));
        }
        if (auto* X = dyn_cast<BinaryOperator>(E)) {
            Object O{{"k", "bin"}, {"op", X->getOpcodeStr().str()}, {"x", expr(X->getLHS())}, {"y", expr(X->getRHS())}};
            O["asg"] = X->isAssignmentOp();
            return fin(std::move(O));
        }
        if (auto* X = dyn_cast<UnaryOperator>(E)) {
            if (X->getOpcode() == UO_Extension || X->getOpcode() == UO_Plus) return expr(X->getSubExpr());
            return fin(Object{{"k", "un"}, {"op", UnaryOperator::getOpcodeStr(X->getOpcode()).str()}, {"post", X->isPostfix()}, {"x", expr(X->getSubExpr())}});
        }
        if (auto* X = dyn_cast<AbstractConditionalOperator>(E)) {
            return fin(Object{{"k", "cond"}, {"c", expr(X->getCond())}, {"x", expr(X->getTrueExpr())}, {"y", expr(X->getFalseExpr())}});
        }
        if (auto* X = dyn_cast<CXXFunctionalCastExpr>(E)) { return castE(X, fin); }
        if (auto* X = dyn_cast<CastExpr>(E)) { return castE(X, fin); }
        if (auto* X = dyn_cast<CXXThrowExpr>(E)) return fin(Object{{"k", "throw"}, {"x", expr(X->getSubExpr())}});
        if (auto* X = dyn_cast<CXXNewExpr>(E)) {
            return fin(Object{{"k", "new"}, {"x", expr(X->getInitializer())}, {"at", type(X->getAllocatedType())}});
        }
        if (auto* X = dyn_cast<CXXDeleteExpr>(E)) return fin(Object{{"k", "delete"}, {"x", expr(X->getArgument())}});
        if (auto* X = dyn_cast<CXXTypeidExpr>(E)) return fin(Object{{"k", "unk"}, {"w", "typeid"}});
        if (auto* X = dyn_cast<CXXNoexceptExpr>(E)) return lit("bool", X->getValue(), E->getType());
        if (auto* X = dyn_cast<ArrayInitLoopExpr>(E)) return fin(Object{{"k", "copy"}, {"x", expr(X->getCommonExpr()->getSourceExpr())}, {"move", false}});
        if (auto* X = dyn_cast<StmtExpr>(E)) return fin(Object{{"k", "stmtexpr"}, {"s", stmt(X->getSubStmt())}});
        return fin(Object{{"k", "unk"}, {"w", E->getStmtClassName()}});
    }

    template<class Fin>
    Value castE(const CastExpr* X, Fin fin) {
        auto ck = X->getCastKind();
        bool explicitc = isa<ExplicitCastExpr>(X);
        if (isa<CXXConstCastExpr>(X)) {
            return fin(Object{{"k", "cast"}, {"ck", "const_cast"}, {"x", expr(X->getSubExpr())}});
        }
        if (isa<CXXReinterpretCastExpr>(X)) {
            return fin(Object{{"k", "cast"}, {"ck", "reinterpret"}, {"x", expr(X->getSubExpr())}});
        }
        switch (ck) {
        case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay: case CK_ArrayToPointerDecay:
        case CK_UserDefinedConversion: case CK_ConstructorConversion: case CK_DerivedToBase:
        case CK_UncheckedDerivedToBase: case CK_BuiltinFnToFnPtr: {
            // C-style/functional const-dropping casts are visible through the types
            bool dropsConst = false;
            auto from = X->getSubExpr()->getType(), to = X->getType();
            if (explicitc && (ck == CK_NoOp)) {
                if (from->isPointerType() && to->isPointerType())
                    dropsConst = from->getPointeeType().isConstQualified() && !to->getPointeeType().isConstQualified();
                else if (X->isGLValue())
                    dropsConst = from.isConstQualified() && !to.isConstQualified();
            }
            if (dropsConst) return fin(Object{{"k", "cast"}, {"ck", "const_cast"}, {"x", expr(X->getSubExpr())}});
            return expr(X->getSubExpr());
        }
        default: break;
        }
        return fin(Object{{"k", "cast"}, {"ck", X->getCastKindName()}, {"ex", explicitc}, {"x", expr(X->getSubExpr())}});
    }

    // ---------------------------------------------------------------- statements
    Value varDecl(const VarDecl* V) {
        Object O{{"d", localId(V)}, {"n", V->getNameAsString()}, {"t", type(V->getType())}, {"l", lineOf(V->getLocation())}};
        if (V->isStaticLocal()) O["static"] = true;
        if (V->getInit()) O["i"] = expr(V->getInit());
        return O;
    }

    Value stmt(const Stmt* S) {
        if (!S) return nullptr;
        int L = lineOf(S->getBeginLoc());
        if (auto* X = dyn_cast<CompoundStmt>(S)) {
            Array A; for (auto* s : X->body()) A.push_back(stmt(s));
            return Object{{"s", "block"}, {"b", std::move(A)}, {"l", L}};
        }
        if (auto* X = dyn_cast<DeclStmt>(S)) {
            Array A;
            for (auto* D : X->decls()) if (auto* V = dyn_cast<VarDecl>(D)) A.push_back(varDecl(V));
            return Object{{"s", "decl"}, {"v", std::move(A)}, {"l", L}};
        }
        if (auto* X = dyn_cast<IfStmt>(S)) {
            Object O{{"s", "if"}, {"c", expr(X->getCond())}, {"x", stmt(X->getThen())}, {"y", stmt(X->getElse())}, {"l", L}};
            if (X->getInit()) O["init"] = stmt(X->getInit());
            if (X->getConditionVariable()) O["cv"] = varDecl(X->getConditionVariable());
            return O;
        }
        if (auto* X = dyn_cast<WhileStmt>(S)) {
            Object O{{"s", "while"}, {"c", expr(X->getCond())}, {"b", stmt(X->getBody())}, {"l", L}};
            if (X->getConditionVariable()) O["cv"] = varDecl(X->getConditionVariable());
            return O;
        }
        if (auto* X = dyn_cast<DoStmt>(S)) return Object{{"s", "do"}, {"c", expr(X->getCond())}, {"b", stmt(X->getBody())}, {"l", L}};
        if (auto* X = dyn_cast<ForStmt>(S)) {
            return Object{{"s", "for"}, {"init", stmt(X->getInit())}, {"c", expr(X->getCond())}, {"inc", expr(X->getInc())}, {"b", stmt(X->getBody())}, {"l", L}};
        }
        if (auto* X = dyn_cast<CXXForRangeStmt>(S)) {
            return Object{{"s", "rangefor"}, {"v", varDecl(X->getLoopVariable())}, {"r", expr(X->getRangeInit())},
                          {"begin", expr(X->getBeginStmt() ? cast<VarDecl>(X->getBeginStmt()->getSingleDecl())->getInit() : nullptr)},
                          {"end", expr(X->getEndStmt() ? cast<VarDecl>(X->getEndStmt()->getSingleDecl())->getInit() : nullptr)},
                          {"rv", X->getRangeStmt() ? localId(X->getRangeStmt()->getSingleDecl()) : 0},
                          {"bv", X->getBeginStmt() ? localId(X->getBeginStmt()->getSingleDecl()) : 0},
                          {"ev", X->getEndStmt() ? localId(X->getEndStmt()->getSingleDecl()) : 0},
                          {"inc", expr(X->getInc())}, {"cond", expr(X->getCond())},
                          {"b", stmt(X->getBody())}, {"l", L}};
        }
        if (auto* X = dyn_cast<ReturnStmt>(S)) return Object{{"s", "return"}, {"x", expr(X->getRetValue())}, {"l", L}};
        if (isa<BreakStmt>(S)) return Object{{"s", "break"}, {"l", L}};
        if (isa<ContinueStmt>(S)) return Object{{"s", "continue"}, {"l", L}};
        if (isa<NullStmt>(S)) return Object{{"s", "null"}, {"l", L}};
        if (auto* X = dyn_cast<SwitchStmt>(S)) {
            return Object{{"s", "switch"}, {"c", expr(X->getCond())}, {"b", stmt(X->getBody())}, {"l", L}};
        }
        if (auto* X = dyn_cast<CaseStmt>(S)) return Object{{"s", "case"}, {"c", expr(X->getLHS())}, {"b", stmt(X->getSubStmt())}, {"l", L}};
        if (auto* X = dyn_cast<DefaultStmt>(S)) return Object{{"s", "default"}, {"b", stmt(X->getSubStmt())}, {"l", L}};
        if (auto* X = dyn_cast<CXXTryStmt>(S)) {
            Array H;
            for (unsigned i = 0; i < X->getNumHandlers(); ++i) {
                auto* h = X->getHandler(i);
                Object ho{{"b", stmt(h->getHandlerBlock())}};
                if (h->getCaughtType().isNull()) ho["all"] = true;
                else ho["t"] = type(h->getCaughtType());
                if (h->getExceptionDecl()) ho["d"] = localId(h->getExceptionDecl());
                H.push_back(std::move(ho));
            }
            return Object{{"s", "try"}, {"b", stmt(X->getTryBlock())}, {"h", std::move(H)}, {"l", L}};
        }
        if (auto* X = dyn_cast<LabelStmt>(S)) return stmt(X->getSubStmt());
        if (auto* X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
        if (isa<GotoStmt>(S)) return Object{{"s", "goto"}, {"l", L}};
        if (auto* X = dyn_cast<Expr>(S)) return Object{{"s", "expr"}, {"x", expr(X)}, {"l", L}};
        return Object{{"s", "unk"}, {"w", S->getStmtClassName()}, {"l", L}};
    }

    void function(const FunctionDecl* FD) {
        const FunctionDecl* Def = nullptr;
        if (!FD->hasBody(Def)) return;
        FD = Def;
        if (FD->isDependentContext()) return;
        if (FD->isTemplated()) return;
        if (!inRepo(FD->getLocation())) return;
        if (!fnsDone.insert(FD).second) return;
        decl(FD);
        Object O{{"T", "fn"}, {"id", fnId(FD)}, {"qn", qn(FD)}};
        O["file"] = fileOf(FD->getLocation());
        O["line"] = lineOf(FD->getLocation());
        Array P;
        for (auto* p : FD->parameters())
            P.push_back(Object{{"d", localId(p)}, {"n", p->getNameAsString()}, {"t", type(p->getType())}});
        O["p"] = std::move(P);
        if (auto* CD = dyn_cast<CXXConstructorDecl>(FD)) {
            Array I;
            for (auto* ini : CD->inits()) {
                Object io;
                if (ini->isAnyMemberInitializer()) io["field"] = ini->getAnyMember()->getNameAsString();
                else if (ini->isBaseInitializer()) io["base"] = type(QualType(ini->getBaseClass(), 0));
                else if (ini->isDelegatingInitializer()) io["deleg"] = true;
                io["x"] = expr(ini->getInit());
                io["written"] = ini->isWritten();
                I.push_back(std::move(io));
            }
            O["inits"] = std::move(I);
        }
        O["b"] = stmt(FD->getBody());
        ++fnCount;
        emit(std::move(O));
    }

    void drain() {
        while (!work.empty()) {
            auto* f = work.back();
            work.pop_back();
            function(f);
        }
    }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
    Dumper& D;
    explicit Visitor(Dumper& D) : D(D) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool VisitFunctionDecl(FunctionDecl* FD) {
        if (FD->isDependentContext() || FD->isTemplated()) return true;
        if (!D.inRepo(FD->getLocation())) return true;
        if (FD->doesThisDeclarationHaveABody()) { D.function(FD); D.drain(); }
        else { D.decl(FD); D.drain(); }
        return true;
    }
    bool VisitVarDecl(VarDecl* VD) {
        if (!D.inRepo(VD->getLocation())) return true;
        if (VD->isLocalVarDeclOrParm() && !VD->isStaticLocal()) return true;
        if (VD->getDeclContext()->isDependentContext() || VD->getType()->isDependentType()) return true;
        Object O{{"T", "gvar"}, {"qn", D.qn(VD)}, {"t", D.type(VD->getType())},
                 {"file", D.fileOf(VD->getLocation())}, {"line", D.lineOf(VD->getLocation())},
                 {"static_local", VD->isStaticLocal()}, {"constexpr", VD->isConstexpr()}};
        D.emit(std::move(O));
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* RD) {
        if (!RD->isThisDeclarationADefinition() || RD->isDependentType()) return true;
        if (!D.inRepo(RD->getLocation())) return true;
        D.record(RD);
        D.drain();
        return true;
    }
};

class Consumer : public ASTConsumer {
public:
    void HandleTranslationUnit(ASTContext& Ctx) override {
        Dumper D(Ctx);
        Visitor V(D);
        V.TraverseDecl(Ctx.getTranslationUnitDecl());
        D.drain();
        auto& DE = Ctx.getDiagnostics();
        D.emit(Object{{"T", "tu"}, {"tag", TuTag}, {"errors", (int64_t)DE.getClient()->getNumErrors()}, {"fns", D.fnCount}});
    }
};

class Action : public ASTFrontendAction {
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override {
        return std::make_unique<Consumer>();
    }
};

struct Factory : tooling::FrontendActionFactory {
    std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
};

} // namespace

// usage: extract OUT TAG ROOT[:ROOT...] SOURCE -- flags...
int main(int argc, char** argv) {
    if (argc < 6) { llvm::errs() << "usage: extract OUT TAG ROOTS SOURCE -- flags\n"; return 2; }
    std::string out = argv[1];
    TuTag = argv[2];
    {
        std::string r = argv[3];
        size_t p = 0;
        while (p <= r.size()) {
            auto q = r.find(':', p);
            if (q == std::string::npos) q = r.size();
            if (q > p) Roots.push_back(r.substr(p, q - p));
            p = q + 1;
        }
    }
    std::string src = argv[4];
    std::vector<std::string> flags;
    for (int i = 6; i < argc; ++i) flags.push_back(argv[i]);
    std::error_code EC;
    llvm::raw_fd_ostream os(out, EC);
    if (EC) { llvm::errs() << EC.message() << "\n"; return 2; }
    Out = &os;
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, {src});
    Factory F;
    int rc = tool.run(&F);
    os.flush();
    return rc;
}
