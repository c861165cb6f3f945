// Clang plugin: writes the declarations made in the analysed headers, with
// their canonical types, as JSON.  -fplugin-arg-astq-out=FILE -fplugin-arg-astq-root=DIR
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclFriend.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Frontend/FrontendPluginRegistry.h"
#include "clang/Lex/MacroInfo.h"
#include "clang/Lex/Preprocessor.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
using namespace clang;
namespace json = llvm::json;

namespace {
struct Collector : RecursiveASTVisitor<Collector> {
  ASTContext& C; SourceManager& SM; std::string root; PrintingPolicy PP;
  json::Array fns, vars, recs, casts;
  Collector(ASTContext& c, std::string r) : C(c), SM(c.getSourceManager()), root(std::move(r)), PP(c.getPrintingPolicy()) { PP.SuppressTagKeyword = true; }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }

  bool mine(SourceLocation l) const { auto p = SM.getPresumedLoc(SM.getExpansionLoc(l)); return p.isValid() && llvm::StringRef(p.getFilename()).starts_with(root); }
  void loc(json::Object& o, SourceLocation l) const { auto p = SM.getPresumedLoc(SM.getExpansionLoc(l)); if (p.isValid()) { o["file"] = p.getFilename(); o["line"] = (int64_t)p.getLine(); } }
  std::string ty(QualType t) const { return t.getCanonicalType().getAsString(PP); }
  static const char* acc(AccessSpecifier a) { return a == AS_public ? "public" : a == AS_protected ? "protected" : a == AS_private ? "private" : "none"; }
  static const char* linkage(const NamedDecl* d) { switch (d->getFormalLinkage()) { case Linkage::External: return "external"; case Linkage::Module: return "module"; case Linkage::Internal: return "internal"; case Linkage::UniqueExternal: return "unique"; default: return "none"; } }

  json::Object fn(const FunctionDecl* f) const {
    json::Object o; o["name"] = f->getNameAsString(); o["qual"] = f->getQualifiedNameAsString(); loc(o, f->getLocation());
    o["ret"] = ty(f->getReturnType()); json::Array ps; for (auto* p : f->parameters()) ps.push_back(ty(p->getType())); o["params"] = std::move(ps);
    o["access"] = acc(f->getAccess()); o["inline"] = f->isInlined(); o["constexpr"] = f->isConstexpr(); o["linkage"] = linkage(f); o["body"] = f->isThisDeclarationADefinition(); o["deleted"] = f->isDeleted();
    o["template"] = f->getDescribedFunctionTemplate() != nullptr; o["dependent"] = f->isDependentContext(); o["instantiation"] = f->isTemplateInstantiation();
    o["explicit_spec"] = f->getTemplateSpecializationKind() == TSK_ExplicitSpecialization; o["static"] = f->getStorageClass() == SC_Static; o["member"] = isa<CXXMethodDecl>(f);
    o["noreturn"] = f->isNoReturn();
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) { o["const"] = m->isConst(); o["static_member"] = m->isStatic(); o["virtual"] = m->isVirtual(); o["implicit"] = m->isImplicit(); o["class"] = m->getParent()->getQualifiedNameAsString(); o["class_type"] = ty(C.getRecordType(m->getParent())); }
    if (auto* c = dyn_cast<CXXConstructorDecl>(f)) { o["kind"] = "ctor"; o["explicit"] = c->isExplicit(); o["explicit_unresolved"] = c->getExplicitSpecifier().getKind() == ExplicitSpecKind::Unresolved; o["copymove"] = c->isCopyOrMoveConstructor(); }
    else if (auto* c = dyn_cast<CXXConversionDecl>(f)) { o["kind"] = "conversion"; o["explicit"] = c->isExplicit(); }
    else if (isa<CXXDestructorDecl>(f)) o["kind"] = "dtor";
    else o["kind"] = isa<CXXMethodDecl>(f) ? "method" : "function";
    return o;
  }
  bool VisitFunctionDecl(FunctionDecl* f) {
    if (!mine(f->getLocation()) || isa<CXXDeductionGuideDecl>(f)) return true;
    fns.push_back(fn(f)); return true;
  }
  bool VisitVarDecl(VarDecl* v) {
    if (isa<ParmVarDecl>(v) || !mine(v->getLocation())) return true;
    if (v->isLocalVarDecl() && v->hasLocalStorage()) return true;
    json::Object o; o["name"] = v->getNameAsString(); o["qual"] = v->getQualifiedNameAsString(); loc(o, v->getLocation()); o["type"] = ty(v->getType());
    o["const"] = v->getType().isConstQualified() || v->isConstexpr(); o["constexpr"] = v->isConstexpr(); o["inline"] = v->isInline(); o["linkage"] = linkage(v); o["local_static"] = v->isStaticLocal(); o["tls"] = v->getTLSKind() != VarDecl::TLS_None;
    o["template"] = v->getDescribedVarTemplate() != nullptr || isa<VarTemplateSpecializationDecl>(v); o["member"] = v->isStaticDataMember(); o["definition"] = v->isThisDeclarationADefinition() != VarDecl::DeclarationOnly;
    vars.push_back(std::move(o)); return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* r) {
    if (!mine(r->getLocation()) || !r->isThisDeclarationADefinition() || r->isLambda()) return true;
    json::Object o; o["name"] = r->getNameAsString(); o["qual"] = r->getQualifiedNameAsString(); o["type"] = ty(C.getRecordType(r)); loc(o, r->getLocation()); o["spec"] = isa<ClassTemplateSpecializationDecl>(r) && !isa<ClassTemplatePartialSpecializationDecl>(r);
    o["dependent"] = r->isDependentContext();
    json::Array fs; for (auto* f : r->fields()) { json::Object x; x["name"] = f->getNameAsString(); x["type"] = ty(f->getType()); x["access"] = acc(f->getAccess()); x["mutable"] = f->isMutable(); loc(x, f->getLocation()); fs.push_back(std::move(x)); }
    o["fields"] = std::move(fs);
    json::Array bs; for (auto& b : r->bases()) { json::Object x; x["type"] = ty(b.getType()); x["access"] = acc(b.getAccessSpecifier()); bs.push_back(std::move(x)); }
    o["bases"] = std::move(bs);
    json::Array us; for (auto* d : r->decls()) if (auto* u = dyn_cast<UsingShadowDecl>(d)) { json::Object x; x["name"] = u->getNameAsString(); x["access"] = acc(u->getAccess()); us.push_back(std::move(x)); }
    o["using"] = std::move(us);
    json::Array fr;
    for (auto* f : r->friends()) if (auto* d = f->getFriendDecl()) { if (auto* t = dyn_cast<FunctionTemplateDecl>(d)) d = t->getTemplatedDecl(); if (auto* fd = dyn_cast<FunctionDecl>(d)) fr.push_back(fn(fd)); }
    o["friends"] = std::move(fr);
    recs.push_back(std::move(o)); return true;
  }
};
// What the headers leave behind outside the library: declarations by the scope
// they are made in, macros by the state they end in.
struct Footprint {
  const Collector& K; ASTContext& C; json::Array scopes, macros;
  Footprint(const Collector& k) : K(k), C(k.C) {}
  void note(const Decl* d, const char* where, const std::string& what) {
    json::Object o; K.loc(o, d->getLocation()); o["scope"] = std::string(where); o["kind"] = d->getDeclKindName(); o["name"] = what; scopes.push_back(std::move(o));
  }
  static std::string name(const Decl* d) { if (auto* n = dyn_cast<NamedDecl>(d)) return n->getQualifiedNameAsString(); return ""; }
  bool ours(const Decl* d) const {  // a specialization naming a type of the library
    auto* c = dyn_cast<ClassTemplateSpecializationDecl>(d);
    if (!c) { if (auto* v = dyn_cast<VarTemplateSpecializationDecl>(d)) { for (auto& a : v->getTemplateArgs().asArray()) if (mentions(a)) return true; } return false; }
    for (auto& a : c->getTemplateArgs().asArray()) if (mentions(a)) return true;
    return false;
  }
  bool mentions(const TemplateArgument& a) const {
    if (a.getKind() == TemplateArgument::Pack) { for (auto& x : a.pack_elements()) if (mentions(x)) return true; return false; }
    std::string t; llvm::raw_string_ostream os(t); PrintingPolicy pp = K.PP; pp.FullyQualifiedName = true; a.print(pp, os, true); return os.str().find("xyz::") != std::string::npos;
  }
  void walk(const DeclContext* dc, const std::string& where) {
    for (auto* d : dc->decls()) {
      if (d->isImplicit() || !d->getLocation().isValid()) { if (!isa<LinkageSpecDecl>(d)) continue; }
      if (auto* l = dyn_cast<LinkageSpecDecl>(d)) { walk(l, where); continue; }
      if (!K.mine(d->getLocation())) { if (auto* n = dyn_cast<NamespaceDecl>(d)) if (n->getName() == "xyz" || n->getName() == "std") continue; continue; }
      if (auto* n = dyn_cast<NamespaceDecl>(d)) {
        if (n->isAnonymousNamespace()) { note(d, where.c_str(), "(anonymous namespace)"); continue; }
        std::string q = n->getQualifiedNameAsString();
        if (where == "global" && q != "xyz" && q != "std") { note(d, "global", q); continue; }
        if (where == "std") { note(d, "std", q); continue; }
        json::Object o; K.loc(o, d->getLocation()); o["scope"] = std::string(where); o["kind"] = "OpensNamespace"; o["name"] = q; scopes.push_back(std::move(o));
        walk(n, q == "std" ? "std" : "xyz"); continue;
      }
      if (isa<EmptyDecl>(d) || isa<StaticAssertDecl>(d)) continue;
      const DeclContext* sem = d->getDeclContext()->getRedeclContext();
      std::string in = where; if (auto* n = dyn_cast<NamespaceDecl>(sem)) { auto q = n->getQualifiedNameAsString(); in = q == "std" || llvm::StringRef(q).starts_with("std::") ? "std" : q == "xyz" || llvm::StringRef(q).starts_with("xyz::") ? "xyz" : "global"; }
      if (in == "std" && ours(d)) { note(d, "specialization", name(d)); continue; }
      note(d, in.c_str(), name(d));
      if (auto* v = dyn_cast<VarDecl>(d)) if (!v->getType()->isDependentType() && v->hasInit() && !v->getInit()->isValueDependent() && !v->hasConstantInitialization()) note(d, "dynamic", name(d));
    }
  }
  void preprocessor(Preprocessor& PP) {
    for (auto it = PP.macro_begin(false), e = PP.macro_end(false); it != e; ++it) {
      bool touched = false, outside = false; SourceLocation at; auto* last = PP.getLocalMacroDirectiveHistory(it->first);
      for (auto* m = last; m; m = m->getPrevious()) {
        if (m->getKind() == MacroDirective::MD_Visibility) continue;
        if (m->getLocation().isValid() && K.mine(m->getLocation())) { touched = true; at = m->getLocation(); } else outside = true;
      }
      if (!touched) continue;
      json::Object o; K.loc(o, at); o["name"] = it->first->getName().str(); o["before"] = outside;
      auto def = last->getDefinition(); bool on = def && !def.isUndefined(); o["defined"] = on;
      o["by_header"] = on && K.mine(def.getMacroInfo()->getDefinitionLoc());
      macros.push_back(std::move(o));
    }
  }
};
struct Consumer : ASTConsumer {
  std::string out, root; Preprocessor& PP; Consumer(std::string o, std::string r, Preprocessor& pp) : out(std::move(o)), root(std::move(r)), PP(pp) {}
  void HandleTranslationUnit(ASTContext& C) override {
    Collector v(C, root); v.TraverseDecl(C.getTranslationUnitDecl());
    json::Object o; o["functions"] = std::move(v.fns); o["variables"] = std::move(v.vars); o["records"] = std::move(v.recs);
    Footprint fp(v); fp.walk(C.getTranslationUnitDecl(), "global"); fp.preprocessor(PP); o["scopes"] = std::move(fp.scopes); o["macros"] = std::move(fp.macros);
    std::error_code ec; llvm::raw_fd_ostream os(out, ec); os << json::Value(std::move(o)) << "\n";
  }
};
struct Action : PluginASTAction {
  std::string out, root;
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, llvm::StringRef) override { return std::make_unique<Consumer>(out, root, CI.getPreprocessor()); }
  bool ParseArgs(const CompilerInstance&, const std::vector<std::string>& as) override { for (auto& a : as) { llvm::StringRef s(a); if (s.consume_front("out=")) out = s.str(); else if (s.consume_front("root=")) root = s.str(); } return true; }
  ActionType getActionType() override { return AddAfterMainAction; }
};
}  // namespace
static FrontendPluginRegistry::Add<Action> X("astq", "declaration facts");
