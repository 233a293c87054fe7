// clazy-verif IR extractor: parses translation units of KDE/clazy with the real build's flags and
// dumps, for every function defined under the given source root, its resolved expression trees and
// clang::CFG as JSON.  It never executes the analysed code.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/ParentMap.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/ADT/SmallString.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <unordered_map>

using namespace clang;
namespace J = llvm::json;

static std::string g_root; // e.g. /repo/src/
static std::set<std::string> *g_seenHeaderFuncs = new std::set<std::string>;

namespace
{
class Dumper
{
public:
    Dumper(ASTContext &c)
        : ctx(c)
        , sm(c.getSourceManager())
        , pol(c.getPrintingPolicy())
    {
        pol.SuppressTagKeyword = true;
        pol.Bool = true;
        pol.SuppressUnwrittenScope = false;
        pol.AnonymousTagLocations = true;
        pol.PrintCanonicalTypes = true;
    }
    ASTContext &ctx;
    SourceManager &sm;
    PrintingPolicy pol;

    std::vector<std::string> types;
    std::map<std::string, int> typeIdx;
    J::Array decls;
    std::unordered_map<const Decl *, int> declIdx;
    J::Array funcs, records, globals, enums;

    std::string fileOf(SourceLocation l)
    {
        l = sm.getExpansionLoc(l);
        if (l.isInvalid())
            return "";
        auto fe = sm.getFileEntryRefForID(sm.getFileID(l));
        if (!fe)
            return "";
        llvm::SmallString<256> p(fe->getName());
        llvm::SmallString<256> rp;
        if (!llvm::sys::fs::real_path(p, rp))
            return std::string(rp);
        return std::string(p);
    }
    std::unordered_map<unsigned, std::string> fileCache;
    const std::string &fileCached(SourceLocation l)
    {
        l = sm.getExpansionLoc(l);
        unsigned fid = l.isInvalid() ? 0 : sm.getFileID(l).getHashValue();
        auto it = fileCache.find(fid);
        if (it == fileCache.end())
            it = fileCache.emplace(fid, fileOf(l)).first;
        return it->second;
    }
    bool inRepo(SourceLocation l)
    {
        if (l.isInvalid())
            return false;
        const std::string &f = fileCached(l);
        return f.size() > g_root.size() && f.compare(0, g_root.size(), g_root) == 0;
    }
    std::string locStr(SourceLocation l)
    {
        l = sm.getExpansionLoc(l);
        if (l.isInvalid())
            return "";
        std::string f = fileCached(l);
        if (f.compare(0, g_root.size(), g_root) == 0)
            f = f.substr(g_root.size());
        return f + ":" + std::to_string(sm.getExpansionLineNumber(l)) + ":" + std::to_string(sm.getExpansionColumnNumber(l));
    }

    int type(QualType q)
    {
        if (q.isNull())
            return -1;
        std::string s = q.getCanonicalType().getAsString(pol);
        auto it = typeIdx.find(s);
        if (it != typeIdx.end())
            return it->second;
        int i = types.size();
        types.push_back(s);
        typeIdx[s] = i;
        return i;
    }

    std::string qname(const NamedDecl *nd)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        nd->getNameForDiagnostic(os, pol, true);
        return s;
    }
    std::string plainName(const NamedDecl *nd)
    {
        return nd->getQualifiedNameAsString();
    }

    std::string fkey(const FunctionDecl *fd)
    {
        fd = fd->getCanonicalDecl();
        std::string k;
        if (auto *md = dyn_cast<CXXMethodDecl>(fd)) {
            if (md->getParent()->isLambda()) {
                k = "lambda@" + locStr(md->getParent()->getBeginLoc());
                // a lambda in an instantiation is another one for every instantiation
                for (const DeclContext *c = md->getParent()->getParent(); c; c = c->getParent())
                    if (auto *ef = dyn_cast<FunctionDecl>(c); ef && ef->isTemplateInstantiation()) {
                        k += "<" + qname(ef) + ">";
                        break;
                    }
                k += "::" + fd->getNameAsString() + "(";
                std::string s = fd->getType().getCanonicalType().getAsString(pol);
                return k + s + ")";
            }
        }
        if (!fd->isExternallyVisible() && !fd->isImplicit())
            k = "[" + locStr(fd->getLocation()).substr(0, locStr(fd->getLocation()).find(':')) + "]";
        k += qname(fd) + ":" + fd->getType().getCanonicalType().getAsString(pol);
        return k;
    }

    int decl(const Decl *d)
    {
        if (!d)
            return -1;
        if (auto *fd = dyn_cast<FunctionDecl>(d)) {
            d = fd->getCanonicalDecl();
        } else if (auto *v = dyn_cast<VarDecl>(d)) {
            if (!isa<ParmVarDecl>(v))
                d = v->getCanonicalDecl();
        }
        auto it = declIdx.find(d);
        if (it != declIdx.end())
            return it->second;
        int id = decls.size();
        declIdx[d] = id;
        decls.push_back(nullptr);
        J::Object o;
        o["k"] = d->getDeclKindName();
        if (auto *nd = dyn_cast<NamedDecl>(d)) {
            o["n"] = nd->getNameAsString();
            o["q"] = plainName(nd);
        }
        if (auto *vd = dyn_cast<ValueDecl>(d))
            o["t"] = type(vd->getType());
        if (inRepo(d->getLocation()))
            o["l"] = locStr(d->getLocation());
        if (auto *v = dyn_cast<VarDecl>(d)) {
            if (v->isStaticLocal())
                o["sl"] = 1;
            else if (v->hasGlobalStorage())
                o["gl"] = 1;
            if (v->getType().isConstQualified())
                o["const"] = 1;
            if (v->getType()->isReferenceType())
                o["ref"] = 1;
            if (auto *p = dyn_cast<ParmVarDecl>(v))
                o["pi"] = (int)p->getFunctionScopeIndex();
            if (v->isImplicit())
                o["imp"] = 1;
        }
        if (auto *fd = dyn_cast<FieldDecl>(d)) {
            if (fd->getType()->isReferenceType())
                o["ref"] = 1;
            if (fd->getType().isConstQualified())
                o["const"] = 1;
        }
        if (auto *ec = dyn_cast<EnumConstantDecl>(d)) {
            llvm::SmallString<32> s;
            ec->getInitVal().toString(s);
            o["v"] = std::string(s);
        }
        if (auto *fd = dyn_cast<FunctionDecl>(d)) {
            o["key"] = fkey(fd);
            o["rt"] = type(fd->getReturnType());
            J::Array ps;
            for (auto *p : fd->parameters())
                ps.push_back(J::Array{p->getNameAsString(), type(p->getType())});
            o["ps"] = std::move(ps);
            if (auto *md = dyn_cast<CXXMethodDecl>(fd)) {
                o["cls"] = plainName(md->getParent());
                o["clst"] = qname(md->getParent());
                if (md->isVirtual())
                    o["virt"] = 1;
                if (md->isStatic())
                    o["static"] = 1;
                if (md->isConst())
                    o["cm"] = 1;
                if (md->getParent()->isLambda())
                    o["lam"] = 1;
            }
            if (auto *ta = fd->getTemplateSpecializationArgs()) {
                J::Array a;
                std::function<void(const TemplateArgument &)> add = [&](const TemplateArgument &x) {
                    if (x.getKind() == TemplateArgument::Pack) {
                        for (auto &y : x.pack_elements())
                            add(y);
                        return;
                    }
                    std::string s;
                    llvm::raw_string_ostream os(s);
                    x.print(pol, os, true);
                    a.push_back(s);
                };
                for (auto &x : ta->asArray())
                    add(x);
                o["ta"] = std::move(a);
                if (ta->size() >= 2 && ta->get(0).getKind() == TemplateArgument::Type && ta->get(1).getKind() == TemplateArgument::Type) {
                    QualType from = ta->get(1).getAsType();
                    if (from->isPointerType())
                        from = from->getPointeeType();
                    auto *t = ta->get(0).getAsType()->getAsCXXRecordDecl();
                    auto *f = from->getAsCXXRecordDecl();
                    if (t && f && f->hasDefinition() && t->hasDefinition()
                        && (t->getCanonicalDecl() == f->getCanonicalDecl() || f->isDerivedFrom(t)))
                        o["up"] = 1;
                }
            }
            if (inRepo(fd->getLocation()) || (fd->getDefinition() && inRepo(fd->getDefinition()->getLocation())))
                o["repo"] = 1;
            if (fd->isNoReturn())
                o["nr"] = 1;
            if (fd->isVariadic())
                o["va"] = 1;
        }
        decls[id] = std::move(o);
        return id;
    }

    // ---- per function state
    J::Array nodes;
    std::unordered_map<const Stmt *, int> nodeIdx;

    static const Stmt *strip(const Stmt *s)
    {
        while (s) {
            if (auto *e = dyn_cast<Expr>(s)) {
                if (auto *p = dyn_cast<ParenExpr>(e)) {
                    s = p->getSubExpr();
                    continue;
                }
                if (auto *p = dyn_cast<FullExpr>(e)) {
                    s = p->getSubExpr();
                    continue;
                }
                if (auto *p = dyn_cast<MaterializeTemporaryExpr>(e)) {
                    s = p->getSubExpr();
                    continue;
                }
                if (auto *p = dyn_cast<CXXBindTemporaryExpr>(e)) {
                    s = p->getSubExpr();
                    continue;
                }
                if (auto *p = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) {
                    s = p->getReplacement();
                    continue;
                }
                if (auto *p = dyn_cast<CXXDefaultArgExpr>(e)) {
                    s = p->getExpr();
                    continue;
                }
                if (auto *p = dyn_cast<CXXDefaultInitExpr>(e)) {
                    s = p->getExpr();
                    continue;
                }
                if (auto *p = dyn_cast<CXXRewrittenBinaryOperator>(e)) {
                    s = p->getSemanticForm();
                    continue;
                }
                if (auto *p = dyn_cast<CXXStdInitializerListExpr>(e)) {
                    s = p->getSubExpr();
                    continue;
                }
                if (auto *p = dyn_cast<OpaqueValueExpr>(e)) {
                    if (p->getSourceExpr()) {
                        s = p->getSourceExpr();
                        continue;
                    }
                }
                if (auto *p = dyn_cast<ImplicitCastExpr>(e)) {
                    switch (p->getCastKind()) {
                    case CK_PointerToBoolean:
                    case CK_IntegralToBoolean:
                    case CK_IntegralCast:
                    case CK_FloatingToBoolean:
                        return s;
                    default:
                        s = p->getSubExpr();
                        continue;
                    }
                }
            }
            break;
        }
        return s;
    }

    void child(J::Array &c, const Stmt *s)
    {
        c.push_back(s ? node(s) : -1);
    }

    int node(const Stmt *s0)
    {
        const Stmt *s = strip(s0);
        if (!s)
            return -1;
        auto it = nodeIdx.find(s);
        if (it != nodeIdx.end())
            return it->second;
        int id = nodes.size();
        nodeIdx[s] = id;
        nodes.push_back(nullptr);
        J::Object o;
        J::Array c;
        o["k"] = s->getStmtClassName();
        SourceLocation l = s->getBeginLoc();
        if (auto *me = dyn_cast<MemberExpr>(s))
            l = me->getMemberLoc().isValid() ? me->getMemberLoc() : l;
        else if (auto *bo = dyn_cast<BinaryOperator>(s))
            l = bo->getOperatorLoc();
        SourceLocation el = sm.getExpansionLoc(l);
        o["l"] = (int)(el.isValid() ? sm.getExpansionLineNumber(el) : 0);
        if (l.isMacroID())
            o["m"] = Lexer::getImmediateMacroName(l, sm, ctx.getLangOpts()).str();
        if (auto *e = dyn_cast<Expr>(s))
            o["t"] = type(e->getType());

        bool generic = false;
        if (auto *e = dyn_cast<DeclRefExpr>(s)) {
            o["d"] = decl(e->getDecl());
        } else if (auto *e = dyn_cast<MemberExpr>(s)) {
            o["d"] = decl(e->getMemberDecl());
            if (e->isArrow())
                o["arrow"] = 1;
            if (e->isImplicitAccess())
                o["impl"] = 1;
            child(c, e->getBase());
        } else if (auto *e = dyn_cast<CXXMemberCallExpr>(s)) {
            const FunctionDecl *fd = e->getDirectCallee();
            o["d"] = decl(fd);
            const Expr *callee = e->getCallee()->IgnoreParenImpCasts();
            if (auto *me = dyn_cast<MemberExpr>(callee)) {
                if (me->isArrow())
                    o["arrow"] = 1;
                if (me->hasQualifier())
                    o["qual"] = 1;
                o["o"] = node(me->getBase());
                o["l"] = (int)sm.getExpansionLineNumber(sm.getExpansionLoc(me->getMemberLoc().isValid() ? me->getMemberLoc() : me->getBeginLoc()));
            } else {
                o["o"] = node(callee);
            }
            for (auto *a : e->arguments())
                child(c, a);
        } else if (auto *e = dyn_cast<CXXOperatorCallExpr>(s)) {
            o["op"] = getOperatorSpelling(e->getOperator());
            o["d"] = decl(e->getDirectCallee());
            for (auto *a : e->arguments())
                child(c, a);
        } else if (auto *e = dyn_cast<CallExpr>(s)) {
            const FunctionDecl *fd = e->getDirectCallee();
            o["d"] = decl(fd);
            if (!fd)
                o["o"] = node(e->getCallee());
            for (auto *a : e->arguments())
                child(c, a);
        } else if (auto *e = dyn_cast<CXXConstructExpr>(s)) {
            o["d"] = decl(e->getConstructor());
            if (e->getConstructor()->isCopyOrMoveConstructor())
                o["copy"] = 1;
            if (e->isListInitialization())
                o["list"] = 1;
            for (auto *a : e->arguments())
                child(c, a);
        } else if (auto *e = dyn_cast<CXXInheritedCtorInitExpr>(s)) {
            o["d"] = decl(e->getConstructor());
        } else if (auto *e = dyn_cast<BinaryOperator>(s)) {
            o["op"] = e->getOpcodeStr().str();
            child(c, e->getLHS());
            child(c, e->getRHS());
        } else if (auto *e = dyn_cast<UnaryOperator>(s)) {
            o["op"] = (e->isPostfix() ? "post" : "") + UnaryOperator::getOpcodeStr(e->getOpcode()).str();
            child(c, e->getSubExpr());
        } else if (auto *e = dyn_cast<clang::StringLiteral>(s)) {
            if (e->getCharByteWidth() == 1)
                o["v"] = J::fixUTF8(e->getString());
        } else if (auto *e = dyn_cast<IntegerLiteral>(s)) {
            llvm::SmallString<32> t;
            e->getValue().toString(t, 10, e->getType()->isSignedIntegerType());
            o["v"] = std::string(t);
        } else if (auto *e = dyn_cast<CharacterLiteral>(s)) {
            o["v"] = std::to_string(e->getValue());
        } else if (auto *e = dyn_cast<CXXBoolLiteralExpr>(s)) {
            o["v"] = e->getValue() ? "true" : "false";
        } else if (auto *e = dyn_cast<CastExpr>(s)) {
            o["ck"] = e->getCastKindName();
            child(c, e->getSubExpr());
        } else if (auto *e = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) {
            if (!e->isArgumentType())
                child(c, e->getArgumentExpr());
        } else if (auto *e = dyn_cast<LambdaExpr>(s)) {
            const CXXMethodDecl *op = e->getCallOperator();
            // generic lambda: what is run is an instantiation
            if (auto *t = e->getDependentCallOperator())
                for (auto *sp : t->specializations())
                    if (sp->hasBody()) {
                        op = cast<CXXMethodDecl>(sp);
                        break;
                    }
            o["fn"] = decl(op);
            J::Array caps;
            auto ii = e->capture_init_begin();
            for (auto &cp : e->captures()) {
                J::Object co;
                if (cp.capturesVariable())
                    co["d"] = decl(cp.getCapturedVar());
                if (cp.capturesThis())
                    co["this"] = 1;
                co["ref"] = cp.getCaptureKind() == LCK_ByRef;
                if (ii != e->capture_init_end() && *ii)
                    co["i"] = node(*ii);
                ++ii;
                caps.push_back(std::move(co));
            }
            o["caps"] = std::move(caps);
        } else if (auto *e = dyn_cast<CXXNewExpr>(s)) {
            o["at"] = type(e->getAllocatedType());
            if (e->getInitializer())
                child(c, e->getInitializer());
        } else if (auto *ds = dyn_cast<DeclStmt>(s)) {
            J::Array vs;
            for (auto *d : ds->decls()) {
                if (auto *v = dyn_cast<VarDecl>(d)) {
                    J::Array p;
                    p.push_back(decl(v));
                    p.push_back(v->getInit() ? node(v->getInit()) : -1);
                    vs.push_back(std::move(p));
                    if (auto *dd = dyn_cast<DecompositionDecl>(v)) {
                        J::Array bs;
                        for (auto *b : dd->bindings()) {
                            J::Array bp;
                            bp.push_back(decl(b));
                            bp.push_back(b->getBinding() ? node(b->getBinding()) : -1);
                            bs.push_back(std::move(bp));
                        }
                        o["bind"] = std::move(bs);
                    }
                }
            }
            o["vars"] = std::move(vs);
        } else if (auto *fr = dyn_cast<CXXForRangeStmt>(s)) {
            o["var"] = decl(fr->getLoopVariable());
            o["range"] = fr->getRangeInit() ? node(fr->getRangeInit()) : -1;
            o["body"] = node(fr->getBody());
            o["rvar"] = fr->getRangeStmt() ? decl(fr->getRangeStmt()->getSingleDecl()) : -1;
            o["bvar"] = fr->getBeginStmt() ? decl(fr->getBeginStmt()->getSingleDecl()) : -1;
            if (fr->getLoopVarStmt())
                o["vstmt"] = node(fr->getLoopVarStmt());
        } else if (auto *is = dyn_cast<IfStmt>(s)) {
            if (is->getInit())
                o["init"] = node(is->getInit());
            if (is->getConditionVariableDeclStmt())
                o["cvar"] = node(is->getConditionVariableDeclStmt());
            child(c, is->getCond());
            child(c, is->getThen());
            child(c, is->getElse());
            if (is->isConstexpr())
                o["cx"] = 1;
        } else if (auto *fs = dyn_cast<ForStmt>(s)) {
            child(c, fs->getInit());
            child(c, fs->getCond());
            child(c, fs->getInc());
            child(c, fs->getBody());
        } else if (auto *ws = dyn_cast<WhileStmt>(s)) {
            if (ws->getConditionVariableDeclStmt())
                o["cvar"] = node(ws->getConditionVariableDeclStmt());
            child(c, ws->getCond());
            child(c, ws->getBody());
        } else if (auto *e = dyn_cast<InitListExpr>(s)) {
            for (auto *x : e->inits())
                child(c, x);
        } else if (auto *cs = dyn_cast<CaseStmt>(s)) {
            child(c, cs->getLHS());
            child(c, cs->getSubStmt());
        } else if (auto *e = dyn_cast<CXXThisExpr>(s)) {
            (void)e;
        } else {
            generic = true;
        }
        if (generic) {
            for (const Stmt *ch : s->children())
                if (ch)
                    child(c, ch);
        }
        if (!c.empty())
            o["c"] = std::move(c);
        nodes[id] = std::move(o);
        return id;
    }

    void dumpCFG(const Decl *d, Stmt *body, J::Object &fo)
    {
        CFG::BuildOptions bo;
        bo.setAllAlwaysAdd();
        bo.AddImplicitDtors = true;
        bo.AddTemporaryDtors = false;
        bo.AddInitializers = true;
        bo.AddEHEdges = false;
        bo.PruneTriviallyFalseEdges = false;
        bo.AddCXXDefaultInitExprInCtors = true;
        auto cfg = CFG::buildCFG(d, body, &ctx, bo);
        if (!cfg) {
            fo["nocfg"] = 1;
            return;
        }
        J::Array blocks;
        for (const CFGBlock *b : *cfg) {
            J::Object bo2;
            bo2["id"] = (int)b->getBlockID();
            J::Array el;
            int last = -2;
            for (auto &e : *b) {
                if (auto st = e.getAs<CFGStmt>()) {
                    int n = node(st->getStmt());
                    if (n >= 0 && n != last)
                        el.push_back(n);
                    last = n;
                } else if (auto in = e.getAs<CFGInitializer>()) {
                    const CXXCtorInitializer *ci = in->getInitializer();
                    J::Object io;
                    if (ci->isAnyMemberInitializer())
                        io["f"] = decl(ci->getAnyMember());
                    else
                        io["base"] = ci->isBaseInitializer() ? type(QualType(ci->getBaseClass(), 0)) : -1;
                    io["i"] = ci->getInit() ? node(ci->getInit()) : -1;
                    el.push_back(std::move(io));
                    last = -2;
                } else if (auto dt = e.getAs<CFGAutomaticObjDtor>()) {
                    J::Object io;
                    io["dtor"] = decl(dt->getVarDecl());
                    el.push_back(std::move(io));
                    last = -2;
                }
            }
            bo2["el"] = std::move(el);
            if (const Stmt *t = b->getTerminatorStmt()) {
                bo2["tk"] = t->getStmtClassName();
                bo2["tn"] = node(t);
                if (auto *c2 = b->getTerminatorCondition(false))
                    bo2["tc"] = node(c2);
            }
            if (const Stmt *lbl = b->getLabel()) {
                bo2["lbl"] = node(lbl);
            }
            J::Array su;
            for (auto &sc : b->succs()) {
                const CFGBlock *r = sc.getReachableBlock();
                if (r)
                    su.push_back((int)r->getBlockID());
                else if (sc.getPossiblyUnreachableBlock())
                    su.push_back((int)sc.getPossiblyUnreachableBlock()->getBlockID());
                else
                    su.push_back(-1);
            }
            bo2["su"] = std::move(su);
            if (b->hasNoReturnElement())
                bo2["nr"] = 1;
            blocks.push_back(std::move(bo2));
        }
        fo["blocks"] = std::move(blocks);
        fo["entry"] = (int)cfg->getEntry().getBlockID();
        fo["exit"] = (int)cfg->getExit().getBlockID();
    }

    std::set<std::string> doneFuncs;
    void func(const FunctionDecl *fd)
    {
        if (!fd->doesThisDeclarationHaveABody() || fd->isDependentContext())
            return;
        if (fd->isDefaulted() || fd->isDeleted())
            return;
        if (!inRepo(fd->getLocation()))
            return;
        std::string key = fkey(fd);
        if (!doneFuncs.insert(key).second)
            return;
        bool isHeader = !sm.isInMainFile(sm.getExpansionLoc(fd->getLocation()));
        if (isHeader && !g_seenHeaderFuncs->insert(key).second)
            return;
        Stmt *body = fd->getBody();
        if (!body)
            return;
        nodes = J::Array();
        nodeIdx.clear();
        J::Object o;
        o["key"] = key;
        o["q"] = plainName(fd);
        o["d"] = decl(fd);
        o["l"] = locStr(fd->getLocation());
        o["el"] = (int)sm.getExpansionLineNumber(sm.getExpansionLoc(body->getEndLoc()));
        J::Array ps;
        for (auto *p : fd->parameters())
            ps.push_back(decl(p));
        o["ps"] = std::move(ps);
        o["rt"] = type(fd->getReturnType());
        if (isHeader)
            o["hdr"] = 1;
        if (fd->getTemplateInstantiationPattern())
            o["inst"] = locStr(fd->getTemplateInstantiationPattern()->getLocation());
        if (auto *md = dyn_cast<CXXMethodDecl>(fd)) {
            o["cls"] = plainName(md->getParent());
            if (md->getParent()->isLambda()) {
                o["lambda"] = 1;
                const DeclContext *dc = md->getParent()->getDeclContext();
                while (dc && !isa<FunctionDecl>(dc))
                    dc = dc->getParent();
                if (dc)
                    o["in"] = decl(cast<FunctionDecl>(dc));
            }
            if (md->isStatic())
                o["static"] = 1;
            if (md->isVirtual())
                o["virt"] = 1;
            J::Array ov;
            for (auto *m : md->overridden_methods())
                ov.push_back(decl(m));
            if (!ov.empty())
                o["ov"] = std::move(ov);
            if (isa<CXXConstructorDecl>(md))
                o["ctor"] = 1;
            if (isa<CXXDestructorDecl>(md))
                o["dtor"] = 1;
        }
        if (auto *cd = dyn_cast<CXXConstructorDecl>(fd)) {
            J::Array inits;
            for (auto *ci : cd->inits()) {
                J::Object io;
                if (ci->isAnyMemberInitializer())
                    io["f"] = decl(ci->getAnyMember());
                else if (ci->isBaseInitializer())
                    io["base"] = type(QualType(ci->getBaseClass(), 0));
                else
                    io["deleg"] = 1;
                io["i"] = ci->getInit() ? node(ci->getInit()) : -1;
                io["w"] = ci->isWritten() ? 1 : 0;
                inits.push_back(std::move(io));
            }
            o["inits"] = std::move(inits);
        }
        dumpCFG(fd, body, o);
        o["body"] = node(body);
        o["nodes"] = std::move(nodes);
        nodes = J::Array();
        funcs.push_back(std::move(o));
    }

    void record(const CXXRecordDecl *rd)
    {
        if (!rd->isThisDeclarationADefinition() || !inRepo(rd->getLocation()) || rd->isDependentContext() || rd->isLambda())
            return;
        J::Object o;
        o["q"] = qname(rd);
        o["l"] = locStr(rd->getLocation());
        J::Array bs;
        for (auto &b : rd->bases())
            bs.push_back(b.getType().getCanonicalType().getAsString(pol));
        o["bases"] = std::move(bs);
        J::Array ms;
        for (auto *m : rd->methods()) {
            if (m->isImplicit())
                continue;
            J::Object mo;
            mo["d"] = decl(m);
            mo["n"] = m->getNameAsString();
            if (m->isPureVirtual())
                mo["pure"] = 1;
            J::Array ov;
            for (auto *x : m->overridden_methods())
                ov.push_back(plainName(x));
            if (!ov.empty())
                mo["ov"] = std::move(ov);
            ms.push_back(std::move(mo));
        }
        o["methods"] = std::move(ms);
        J::Array fs;
        for (auto *f : rd->fields()) {
            J::Object fo;
            fo["d"] = decl(f);
            fo["n"] = f->getNameAsString();
            fo["t"] = type(f->getType());
            if (f->hasInClassInitializer())
                fo["init"] = 1;
            QualType ct = f->getType().getCanonicalType();
            if (ct->isScalarType())
                fo["scalar"] = 1;
            if (ct->isReferenceType())
                fo["ref"] = 1;
            if (ct.isConstQualified())
                fo["const"] = 1;
            if (f->isMutable())
                fo["mutable"] = 1;
            fs.push_back(std::move(fo));
        }
        o["fields"] = std::move(fs);
        J::Array cs;
        for (auto *c : rd->ctors()) {
            if (c->isImplicit())
                continue;
            cs.push_back(fkey(c));
        }
        o["ctors"] = std::move(cs);
        o["agg"] = rd->isAggregate();
        records.push_back(std::move(o));
    }

    void var(const VarDecl *v)
    {
        if (!v->hasGlobalStorage() || !inRepo(v->getLocation()) || v->getDeclContext()->isDependentContext())
            return;
        if (v->isThisDeclarationADefinition() == VarDecl::DeclarationOnly)
            return;
        J::Object o;
        o["d"] = decl(v);
        o["q"] = plainName(v);
        o["l"] = locStr(v->getLocation());
        o["t"] = type(v->getType());
        QualType ct = v->getType().getCanonicalType();
        QualType base = ctx.getBaseElementType(ct);
        o["const"] = base.isConstQualified();
        o["constexpr"] = v->isConstexpr();
        o["sl"] = v->isStaticLocal();
        if (v->getTLSKind() != VarDecl::TLS_None)
            o["tls"] = 1;
        const DeclContext *dc = v->getDeclContext();
        while (dc && !isa<FunctionDecl>(dc))
            dc = dc->getParent();
        if (dc)
            o["in"] = decl(cast<FunctionDecl>(dc));
        if (v->getInit() && !v->getInit()->isValueDependent()) {
            nodes = J::Array();
            nodeIdx.clear();
            o["init"] = node(v->getInit());
            o["nodes"] = std::move(nodes);
            nodes = J::Array();
        }
        globals.push_back(std::move(o));
    }

    void enumd(const EnumDecl *e)
    {
        if (!e->isThisDeclarationADefinition() || !inRepo(e->getLocation()))
            return;
        J::Object o;
        o["q"] = plainName(e);
        o["l"] = locStr(e->getLocation());
        J::Array cs;
        for (auto *c : e->enumerators()) {
            llvm::SmallString<32> s;
            c->getInitVal().toString(s);
            cs.push_back(J::Array{c->getNameAsString(), std::string(s)});
        }
        o["cs"] = std::move(cs);
        enums.push_back(std::move(o));
    }
};

class V : public RecursiveASTVisitor<V>
{
public:
    Dumper &d;
    V(Dumper &x)
        : d(x)
    {
    }
    bool shouldVisitTemplateInstantiations() const
    {
        return true;
    }
    bool shouldVisitImplicitCode() const
    {
        return true;
    }
    bool VisitFunctionDecl(FunctionDecl *f)
    {
        pend.push_back(f);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *r)
    {
        d.record(r);
        return true;
    }
    bool VisitLambdaExpr(LambdaExpr *l)
    {
        pend.push_back(l->getCallOperator());
        // generic lambdas: instantiations
        if (auto *t = l->getDependentCallOperator())
            for (auto *s : t->specializations())
                pend.push_back(s);
        return true;
    }
    bool VisitVarDecl(VarDecl *v)
    {
        vars.push_back(v);
        return true;
    }
    bool VisitEnumDecl(EnumDecl *e)
    {
        d.enumd(e);
        return true;
    }
    bool TraverseDecl(Decl *x)
    {
        // Skip namespaces' content outside the root quickly: only descend into repo decls or namespaces.
        if (x && !isa<TranslationUnitDecl>(x) && !isa<NamespaceDecl>(x) && !isa<LinkageSpecDecl>(x)) {
            SourceLocation l = x->getLocation();
            if (x->isImplicit() && l.isInvalid())
                return true;
            if (l.isValid() && !d.inRepo(l))
                return true;
        }
        return RecursiveASTVisitor<V>::TraverseDecl(x);
    }
    std::vector<FunctionDecl *> pend;
    std::vector<VarDecl *> vars;
};

static std::string g_outDir;

class Consumer : public ASTConsumer
{
    std::string file;

public:
    Consumer(std::string f)
        : file(f)
    {
    }
    void HandleTranslationUnit(ASTContext &ctx) override
    {
        if (ctx.getDiagnostics().hasUncompilableErrorOccurred())
            return;
        Dumper d(ctx);
        V v(d);
        // only walk top-level decls located in the repo (and namespaces)
        v.TraverseDecl(ctx.getTranslationUnitDecl());
        // function template specialisations of repo templates
        for (auto *f : v.pend)
            d.func(f);
        for (auto *x : v.vars)
            d.var(x);
        J::Object root;
        root["file"] = file;
        root["types"] = J::Array(d.types);
        root["decls"] = std::move(d.decls);
        root["funcs"] = std::move(d.funcs);
        root["records"] = std::move(d.records);
        root["globals"] = std::move(d.globals);
        root["enums"] = std::move(d.enums);
        // included repo headers
        J::Array incs;
        std::set<std::string> inc;
        for (auto it = d.sm.fileinfo_begin(); it != d.sm.fileinfo_end(); ++it) {
            std::string n = it->first.getName().str();
            inc.insert(n);
        }
        for (auto &n : inc)
            if (n.compare(0, g_root.size(), g_root) == 0)
                incs.push_back(n);
        root["incs"] = std::move(incs);
        std::string out = g_outDir + "/";
        for (char c : file)
            out += (c == '/') ? '_' : c;
        out += ".json";
        std::error_code ec;
        llvm::raw_fd_ostream os(out, ec);
        os << J::Value(std::move(root));
    }
};

class Action : public ASTFrontendAction
{
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef f) override
    {
        return std::make_unique<Consumer>(f.str());
    }
};
} // namespace

// usage: extract ROOT OUTDIR COMPDB_DIR file...
int main(int argc, const char **argv)
{
    if (argc < 5) {
        llvm::errs() << "usage: extract ROOT/ OUTDIR BUILDDIR file...\n";
        return 2;
    }
    g_root = argv[1];
    if (g_root.back() != '/')
        g_root += '/';
    g_outDir = argv[2];
    std::string err;
    auto db = tooling::CompilationDatabase::loadFromDirectory(argv[3], err);
    if (!db) {
        llvm::errs() << err << "\n";
        return 2;
    }
    std::vector<std::string> files(argv + 4, argv + argc);
    tooling::ClangTool tool(*db, files);
    // keep the build's own PCH (same compiler version); only drop output options
    tool.appendArgumentsAdjuster(tooling::getInsertArgumentAdjuster("-Wno-everything", tooling::ArgumentInsertPosition::END));
    int rc = tool.run(tooling::newFrontendActionFactory<Action>().get());
    return rc ? 3 : 0;
}
