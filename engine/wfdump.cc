// wfdump: parses C++ translation units with clang and writes the resolved program (functions,
// including every template instantiation and lambda, records, enums, variables) as JSON lines.
//   wfdump OUT.jsonl ROOT1[:ROOT2..] -- <compiler flags> -- file.cc [file.cc ...]
// Only declarations whose definition lies below one of the ROOT prefixes (and not in a `tests`
// directory below it) are written. Types are written as strings.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Basic/SourceManager.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendActions.h>
#include <clang/Lex/Lexer.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SHA1.h>
#include <llvm/Support/raw_ostream.h>

#include <deque>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

using namespace clang;

static std::vector<std::string> g_roots;
static std::unordered_set<std::string> g_done;  // keys already written by this process
static std::unordered_map<std::string, int> g_type_ids;
static std::vector<std::string> g_types;
static std::unique_ptr<llvm::raw_fd_ostream> g_out;
static int g_fail = 0;

static int type_id(const std::string& s) {
  auto [it, fresh] = g_type_ids.emplace(s, (int)g_types.size());
  if (fresh) g_types.push_back(s);
  return it->second;
}

static std::string hash12(const std::string& s) {
  llvm::SHA1 h;
  h.update(s);
  auto d = h.final();
  static const char* hex = "0123456789abcdef";
  std::string o;
  for (int i = 0; i < 8; ++i) {
    o += hex[(unsigned char)d[i] >> 4];
    o += hex[(unsigned char)d[i] & 15];
  }
  return o;
}

struct W {  // tiny JSON writer
  std::string s;
  void str(llvm::StringRef r) {
    s += '"';
    for (unsigned char c : r) {
      switch (c) {
        case '"': s += "\\\""; break;
        case '\\': s += "\\\\"; break;
        case '\n': s += "\\n"; break;
        case '\t': s += "\\t"; break;
        case '\r': s += "\\r"; break;
        default:
          if (c < 32 || c > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            s += b;
          } else
            s += (char)c;
      }
    }
    s += '"';
  }
  bool first = true;
  void key(const char* k) {
    if (s.back() != '{') s += ',';
    str(k);
    s += ':';
  }
  void kv(const char* k, llvm::StringRef v) { key(k); str(v); }
  void kn(const char* k, long long v) { key(k); s += std::to_string(v); }
  void kb(const char* k, bool v) { if (v) { key(k); s += "1"; } }
};

class Dumper {
 public:
  explicit Dumper(ASTContext& c) : ctx(c), sm(c.getSourceManager()), pp(c.getPrintingPolicy()) {
    pp.SuppressTagKeyword = true;
    pp.FullyQualifiedName = true;
    pp.PrintCanonicalTypes = true;
    pp.AnonymousTagLocations = true;
    pp.SuppressInlineNamespace = true;
  }
  ASTContext& ctx;
  SourceManager& sm;
  PrintingPolicy pp;
  std::deque<const FunctionDecl*> queue;
  std::unordered_set<const FunctionDecl*> seen;
  std::unordered_set<const CXXRecordDecl*> rec_seen;
  std::map<const Decl*, std::string> key_cache;

  std::string tystr(QualType t) {
    if (t.isNull()) return "<null>";
    return t.getCanonicalType().getAsString(pp);
  }

  std::string file_of(SourceLocation l) {
    l = sm.getExpansionLoc(l);
    if (l.isInvalid()) return "";
    auto f = sm.getFilename(l);
    return f.str();
  }
  bool in_roots(const Decl* d) {
    std::string f = file_of(d->getLocation());
    if (f.empty()) return false;
    for (auto& r : g_roots)
      if (f.rfind(r, 0) == 0 && f.find("/tests/", r.size()) == std::string::npos) return true;
    return false;
  }
  int line(SourceLocation l) { return sm.getExpansionLineNumber(l); }
  std::string loc(SourceLocation l) {
    return file_of(l) + ":" + std::to_string(sm.getExpansionLineNumber(l)) + ":" +
           std::to_string(sm.getExpansionColumnNumber(l));
  }

  std::string qname(const NamedDecl* d) {
    std::string s;
    llvm::raw_string_ostream os(s);
    PrintingPolicy q = pp;
    q.SuppressInlineNamespace = true;
    d->printQualifiedName(os, q);
    return s;
  }
  // record name with template arguments
  std::string rname(const CXXRecordDecl* r) { return tystr(ctx.getRecordType(r)); }

  std::string fkey(const FunctionDecl* f) {
    f = f->getCanonicalDecl();
    auto it = key_cache.find(f);
    if (it != key_cache.end()) return it->second;
    const FunctionDecl* pat = f->getTemplateInstantiationPattern();
    const FunctionDecl* where = pat ? pat : f;
    const FunctionDecl* def = nullptr;
    if (where->isDefined(def) && def) where = def;
    // A plain function with external linkage is one function wherever it is declared; everything else is told apart
    // by where it is written.
    const auto* pm = dyn_cast<CXXMethodDecl>(f);
    bool plain = !pat && f->isExternallyVisible() && !f->getTemplateSpecializationArgs() &&
                 !(pm && (pm->getParent()->isLambda() || pm->getParent()->isLocalClass()));
    std::string k = (plain ? std::string("extern") : loc(where->getLocation())) + "|" + qname(f) + "|" + tystr(f->getType());
    if (auto* a = f->getTemplateSpecializationArgs())
      for (auto& x : a->asArray()) {
        std::string s;
        llvm::raw_string_ostream os(s);
        x.print(pp, os, true);
        k += "<" + s + ">" + closure_key(x, 0);
      }
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      k += "|" + rname(m->getParent());
      k += closure_key(ctx.getRecordType(m->getParent()), 0);
    }
    k = hash12(k);
    key_cache[f] = k;
    return k;
  }
  // Closure types print alike in every instantiation of the template they are written in: tell them apart by the
  // function they belong to.
  std::string closure_key(QualType t, int depth) {
    if (depth > 6 || t.isNull()) return "";
    t = t.getNonReferenceType().getCanonicalType();
    while (!t.isNull() && t->isPointerType()) t = t->getPointeeType().getCanonicalType();
    const auto* r = t->getAsCXXRecordDecl();
    if (!r) return "";
    std::string k;
    if (r->isLambda() || r->isLocalClass()) return "|" + parent_key(r);
    if (auto* s = dyn_cast<ClassTemplateSpecializationDecl>(r))
      for (auto& a : s->getTemplateArgs().asArray()) k += closure_key(a, depth + 1);
    return k;
  }
  std::string closure_key(const TemplateArgument& a, int depth) {
    std::string k;
    if (a.getKind() == TemplateArgument::Type) return closure_key(a.getAsType(), depth);
    if (a.getKind() == TemplateArgument::Pack)
      for (auto& x : a.pack_elements()) k += closure_key(x, depth);
    return k;
  }
  std::string parent_key(const DeclContext* c) {
    for (const DeclContext* p = c->getParent(); p; p = p->getParent()) {
      if (auto* f = dyn_cast<FunctionDecl>(p)) return fkey(f);
      if (auto* r = dyn_cast<CXXRecordDecl>(p))
        if (!r->isLambda() && !r->isLocalClass()) return rname(r);
    }
    return "";
  }
  std::string vkey(const ValueDecl* v) {
    std::string pi;
    if (auto* p = dyn_cast<ParmVarDecl>(v)) pi = "#" + std::to_string(p->getFunctionScopeIndex());
    return v->getNameAsString() + pi + "@" + std::to_string(sm.getExpansionLineNumber(v->getLocation())) +
           ":" + std::to_string(sm.getExpansionColumnNumber(v->getLocation())) +
           (v->getLocation().isMacroID() ? "m" + std::to_string(sm.getFileOffset(sm.getSpellingLoc(v->getLocation()))) : "");
  }

  static bool is_noexcept(const FunctionDecl* f) {
    auto* p = f->getType()->getAs<FunctionProtoType>();
    if (!p) return false;
    auto est = p->getExceptionSpecType();
    if (est == EST_Unevaluated || est == EST_Uninstantiated || est == EST_Unparsed) {
      return isa<CXXDestructorDecl>(f);
    }
    return p->canThrow() == CT_Cannot;
  }

  // ---------------------------------------------------------------------------------------------
  void fn_ref(W& w, const FunctionDecl* f) {
    w.kv("fn", qname(f));
    w.kv("id", fkey(f));
    w.kn("ft", type_id(tystr(f->getType())));
    w.kb("nx", is_noexcept(f));
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      w.kn("rt", type_id(rname(m->getParent())));
      w.kb("virt", m->isVirtual());
      w.kb("static", m->isStatic());
      w.kb("constm", m->isConst());
    }
    if (auto* a = f->getTemplateSpecializationArgs()) targs(w, a->asArray());
    w.kb("nr", f->isNoReturn());
    w.kb("in", in_roots(f->getTemplateInstantiationPattern() ? f->getTemplateInstantiationPattern() : f));
    enqueue(f);
  }
  void targs(W& w, llvm::ArrayRef<TemplateArgument> as) {
    w.key("ta");
    w.s += "[";
    bool first = true;
    for (auto& a : as) {
      if (!first) w.s += ",";
      first = false;
      std::string s;
      llvm::raw_string_ostream os(s);
      a.print(pp, os, true);
      w.str(s);
    }
    w.s += "]";
  }
  void enqueue(const FunctionDecl* f) {
    if (!f) return;
    const FunctionDecl* c = f->getCanonicalDecl();
    if (!seen.insert(c).second) return;
    queue.push_back(f);
  }

  template <class It>
  void list(W& w, const char* k, It b, It e) {
    w.key(k);
    w.s += "[";
    bool first = true;
    for (; b != e; ++b) {
      if (!first) w.s += ",";
      first = false;
      stmt(w, *b);
    }
    w.s += "]";
  }
  void child(W& w, const char* k, const Stmt* s) {
    if (!s) return;
    w.key(k);
    stmt(w, s);
  }

  const Expr* strip(const Expr* e) {
    while (true) {
      if (auto* x = dyn_cast<ParenExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<ExprWithCleanups>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = x->getReplacement();
      else if (auto* x = dyn_cast<ConstantExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<CXXRewrittenBinaryOperator>(e)) e = x->getSemanticForm();
      else if (auto* x = dyn_cast<ImplicitCastExpr>(e)) {
        switch (x->getCastKind()) {
          case CK_NoOp: case CK_LValueToRValue: case CK_ArrayToPointerDecay:
          case CK_FunctionToPointerDecay: case CK_UncheckedDerivedToBase: case CK_DerivedToBase:
          case CK_UserDefinedConversion: case CK_ConstructorConversion: case CK_NullToPointer:
          case CK_BuiltinFnToFnPtr: case CK_ToVoid:
            e = x->getSubExpr();
            continue;
          default:
            return e;
        }
      } else return e;
    }
  }

  void var(W& w, const VarDecl* v) {
    w.s += "{";
    w.kv("k", "Var");
    w.kv("id", vkey(v));
    w.kv("n", v->getNameAsString());
    w.kn("t", type_id(tystr(v->getType())));
    w.kn("l", line(v->getLocation()));
    w.kb("static", v->isStaticLocal());
    if (auto* d = dyn_cast<DecompositionDecl>(v)) {
      w.key("binds");
      w.s += "[";
      bool first = true;
      for (auto* b : d->bindings()) {
        if (!first) w.s += ",";
        first = false;
        w.s += "{";
        w.kv("id", vkey(b));
        w.kv("n", b->getNameAsString());
        w.kn("t", type_id(tystr(b->getType())));
        child(w, "e", b->getBinding());
        if (auto* hv = b->getHoldingVar()) child(w, "hv", hv->getInit());
        w.s += "}";
      }
      w.s += "]";
    }
    if (v->getInit()) child(w, "i", v->getInit());
    w.s += "}";
  }

  void stmt(W& w, const Stmt* s) {
    if (!s) { w.s += "null"; return; }
    if (auto* e = dyn_cast<Expr>(s)) {
      expr(w, e);
      return;
    }
    if (auto* x = dyn_cast<AttributedStmt>(s)) { stmt(w, x->getSubStmt()); return; }
    w.s += "{";
    auto head = [&](const char* k) {
      w.kv("k", k);
      w.kn("l", line(s->getBeginLoc()));
      if (s->getBeginLoc().isMacroID()) {
        SourceLocation l = s->getBeginLoc();
        // outermost macro
        SourceLocation q = l;
        while (q.isMacroID()) { l = q; q = sm.getImmediateMacroCallerLoc(q); }
        auto n = Lexer::getImmediateMacroName(l, sm, ctx.getLangOpts());
        if (!n.empty()) w.kv("m", n);
      }
    };
    if (auto* x = dyn_cast<CompoundStmt>(s)) {
      head("Block");
      list(w, "c", x->body_begin(), x->body_end());
    } else if (auto* x = dyn_cast<IfStmt>(s)) {
      head("If");
      if (x->isConstexpr()) {
        auto nd = x->getNondiscardedCase(ctx);
        w.kb("cx", true);
        child(w, "init", x->getInit());
        if (nd) {
          child(w, "then", *nd);
          w.kb("taken", true);
        } else {
          child(w, "cond", x->getCond());
          child(w, "then", x->getThen());
          child(w, "else", x->getElse());
        }
      } else {
        child(w, "init", x->getInit());
        if (x->getConditionVariable()) { w.key("var"); var(w, x->getConditionVariable()); }
        child(w, "cond", x->getCond());
        child(w, "then", x->getThen());
        child(w, "else", x->getElse());
      }
    } else if (auto* x = dyn_cast<SwitchStmt>(s)) {
      head("Switch");
      child(w, "init", x->getInit());
      if (x->getConditionVariable()) { w.key("var"); var(w, x->getConditionVariable()); }
      child(w, "cond", x->getCond());
      child(w, "body", x->getBody());
      w.kb("allenum", x->isAllEnumCasesCovered());
    } else if (auto* x = dyn_cast<CaseStmt>(s)) {
      head("Case");
      child(w, "v", x->getLHS());
      child(w, "s", x->getSubStmt());
    } else if (auto* x = dyn_cast<DefaultStmt>(s)) {
      head("Default");
      child(w, "s", x->getSubStmt());
    } else if (auto* x = dyn_cast<ForStmt>(s)) {
      head("For");
      child(w, "init", x->getInit());
      child(w, "cond", x->getCond());
      child(w, "inc", x->getInc());
      child(w, "body", x->getBody());
    } else if (auto* x = dyn_cast<WhileStmt>(s)) {
      head("While");
      if (x->getConditionVariable()) { w.key("var"); var(w, x->getConditionVariable()); }
      child(w, "cond", x->getCond());
      child(w, "body", x->getBody());
    } else if (auto* x = dyn_cast<DoStmt>(s)) {
      head("Do");
      child(w, "cond", x->getCond());
      child(w, "body", x->getBody());
    } else if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
      head("ForRange");
      child(w, "init", x->getInit());
      w.key("var");
      var(w, x->getLoopVariable());
      child(w, "range", x->getRangeInit());
      child(w, "body", x->getBody());
    } else if (auto* x = dyn_cast<ReturnStmt>(s)) {
      head("Return");
      child(w, "e", x->getRetValue());
    } else if (isa<BreakStmt>(s)) head("Break");
    else if (isa<ContinueStmt>(s)) head("Continue");
    else if (isa<NullStmt>(s)) head("Null");
    else if (auto* x = dyn_cast<DeclStmt>(s)) {
      head("Decl");
      w.key("c");
      w.s += "[";
      bool first = true;
      for (auto* d : x->decls()) {
        if (auto* v = dyn_cast<VarDecl>(d)) {
          if (!first) w.s += ",";
          first = false;
          var(w, v);
        }
      }
      w.s += "]";
    } else if (auto* x = dyn_cast<CXXTryStmt>(s)) {
      head("Try");
      child(w, "body", x->getTryBlock());
      w.key("handlers");
      w.s += "[";
      for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
        if (i) w.s += ",";
        auto* h = x->getHandler(i);
        w.s += "{";
        w.kv("k", "Catch");
        w.kn("l", line(h->getBeginLoc()));
        w.kn("t", type_id(h->getCaughtType().isNull() ? "..." : tystr(h->getCaughtType())));
        if (h->getExceptionDecl()) w.kv("var", vkey(h->getExceptionDecl()));
        child(w, "body", h->getHandlerBlock());
        w.s += "}";
      }
      w.s += "]";
    } else {
      head("Stmt?");
      w.kv("cls", s->getStmtClassName());
      list(w, "c", s->child_begin(), s->child_end());
    }
    w.s += "}";
  }

  void expr(W& w, const Expr* e0) {
    const Expr* e = strip(e0);
    w.s += "{";
    auto head = [&](const char* k) {
      w.kv("k", k);
      w.kn("t", type_id(tystr(e->getType())));
      w.kn("l", line(e->getExprLoc()));
    };
    if (auto* x = dyn_cast<CXXTypeidExpr>(e)) {
      head("TypeId");
      if (x->isTypeOperand()) w.kn("ty", type_id(tystr(x->getTypeOperandSourceInfo()->getType().getUnqualifiedType())));
      else child(w, "e", x->getExprOperand());
      w.s += "}";
      return;
    }
    if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
      head("Call");
      if (auto* m = x->getMethodDecl()) fn_ref(w, m);
      else child(w, "calleeE", x->getCallee());
      w.kb("ptr", false);
      child(w, "obj", x->getImplicitObjectArgument());
      if (auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) {
        w.kb("arrow", me->isArrow());
        w.kb("qual", me->hasQualifier());
      }
      list(w, "a", x->arg_begin(), x->arg_end());
    } else if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
      head("Call");
      w.kv("op", getOperatorSpelling(x->getOperator()));
      auto* f = x->getDirectCallee();
      if (f) fn_ref(w, f);
      auto b = x->arg_begin();
      if (f && isa<CXXMethodDecl>(f) && b != x->arg_end()) {
        child(w, "obj", *b);
        ++b;
      }
      if (!f) child(w, "calleeE", x->getCallee());
      list(w, "a", b, x->arg_end());
    } else if (auto* x = dyn_cast<CallExpr>(e)) {
      head("Call");
      if (auto* f = x->getDirectCallee()) fn_ref(w, f);
      else child(w, "calleeE", x->getCallee());
      list(w, "a", x->arg_begin(), x->arg_end());
      Expr::EvalResult r;
      if (!e->isValueDependent() && e->getType()->isIntegralOrEnumerationType() &&
          e->EvaluateAsInt(r, ctx) && !r.HasSideEffects)
        w.kv("cv", llvm::toString(r.Val.getInt(), 10));
    } else if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
      auto* c = x->getConstructor();
      if ((c->isCopyOrMoveConstructor()) && x->getNumArgs() == 1) {
        // keep copies/moves as a light wrapper
        head(c->isMoveConstructor() ? "Move" : "Copy");
        child(w, "e", x->getArg(0));
        w.kb("nx", is_noexcept(c));
        w.kv("id", fkey(c));
        enqueue(c);
      } else {
        head("Construct");
        fn_ref(w, c);
        w.kb("list", x->isListInitialization());
        w.kb("explicit", isa<CXXTemporaryObjectExpr>(x));
        list(w, "a", x->arg_begin(), x->arg_end());
      }
    } else if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
      head("Construct");
      fn_ref(w, x->getConstructor());
      w.kb("inherited", true);
      w.key("a"); w.s += "[]";
    } else if (auto* x = dyn_cast<DeclRefExpr>(e)) {
      auto* d = x->getDecl();
      if (auto* f = dyn_cast<FunctionDecl>(d)) {
        head("FnRef");
        fn_ref(w, f);
      } else if (auto* c = dyn_cast<EnumConstantDecl>(d)) {
        head("Enum");
        w.kv("n", qname(c));
        w.kv("v", llvm::toString(c->getInitVal(), 10));
      } else if (auto* v = dyn_cast<VarDecl>(d)) {
        bool local = v->isLocalVarDeclOrParm();
        head(local ? "Ref" : "Global");
        if (local) {
          w.kv("id", vkey(v));
          w.kv("n", v->getNameAsString());
          if (auto* p = dyn_cast<ParmVarDecl>(v)) w.kn("pi", p->getFunctionScopeIndex());
          w.kb("cap", x->refersToEnclosingVariableOrCapture());
          w.kb("static", v->isStaticLocal());
        } else {
          w.kv("n", qname(v));
          w.kb("in", in_roots(v));
          w.kb("smem", v->isStaticDataMember());
          if (v->isStaticDataMember())
            if (auto* r = dyn_cast<CXXRecordDecl>(v->getDeclContext())) w.kn("rt", type_id(rname(r)));
          global(v);
        }
        const_val(w, e);
      } else if (auto* b = dyn_cast<BindingDecl>(d)) {
        head("Ref");
        w.kv("id", vkey(b));
        w.kv("n", b->getNameAsString());
        w.kb("bind", true);
      } else {
        head("RefOther");
        w.kv("n", qname(d));
      }
    } else if (auto* x = dyn_cast<MemberExpr>(e)) {
      auto* d = x->getMemberDecl();
      head("Member");
      w.kv("n", d->getNameAsString());
      if (auto* f = dyn_cast<FieldDecl>(d)) {
        if (auto* r = dyn_cast<CXXRecordDecl>(f->getParent())) w.kn("rt", type_id(rname(r)));
      } else if (auto* v = dyn_cast<VarDecl>(d)) {
        w.kb("smem", true);
        if (auto* r = dyn_cast<CXXRecordDecl>(v->getDeclContext())) w.kn("rt", type_id(rname(r)));
        global(v);
        const_val(w, e);
      } else if (auto* f = dyn_cast<FunctionDecl>(d)) {
        fn_ref(w, f);
      }
      w.kb("arrow", x->isArrow());
      child(w, "e", x->getBase());
    } else if (isa<CXXThisExpr>(e)) {
      head("This");
    } else if (auto* x = dyn_cast<IntegerLiteral>(e)) {
      head("Int");
      w.kv("v", llvm::toString(x->getValue(), 10, x->getType()->isSignedIntegerType()));
    } else if (auto* x = dyn_cast<FloatingLiteral>(e)) {
      head("Float");
      llvm::SmallString<32> b;
      x->getValue().toString(b, 17);
      w.kv("v", b);
    } else if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) {
      head("Bool");
      w.kn("v", x->getValue());
    } else if (auto* x = dyn_cast<CharacterLiteral>(e)) {
      head("Char");
      w.kn("v", x->getValue());
    } else if (auto* x = dyn_cast<StringLiteral>(e)) {
      head("Str");
      if (x->getCharByteWidth() == 1) w.kv("v", x->getString());
    } else if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) {
      head("Null");
    } else if (auto* x = dyn_cast<UnaryOperator>(e)) {
      head("Un");
      w.kv("op", UnaryOperator::getOpcodeStr(x->getOpcode()));
      w.kb("post", x->isPostfix());
      child(w, "e", x->getSubExpr());
      const_val(w, e);
    } else if (auto* x = dyn_cast<BinaryOperator>(e)) {
      head(x->isAssignmentOp() ? "Assign" : "Bin");
      w.kv("op", x->getOpcodeStr());
      child(w, "x", x->getLHS());
      child(w, "y", x->getRHS());
      const_val(w, e);
    } else if (auto* x = dyn_cast<ConditionalOperator>(e)) {
      head("Cond");
      child(w, "cond", x->getCond());
      child(w, "x", x->getTrueExpr());
      child(w, "y", x->getFalseExpr());
    } else if (auto* x = dyn_cast<CastExpr>(e)) {
      head("Cast");
      w.kv("ck", x->getCastKindName());
      if (auto* ex = dyn_cast<ExplicitCastExpr>(x)) {
        w.kv("style", ex->getStmtClassName());
        w.kn("wt", type_id(tystr(ex->getTypeAsWritten())));
      }
      child(w, "e", x->getSubExpr());
      const_val(w, e);
    } else if (auto* x = dyn_cast<LambdaExpr>(e)) {
      head("Lambda");
      auto* r = x->getLambdaClass();
      w.kn("rt", type_id(rname(r)));
      w.kb("mut", x->isMutable());
      w.key("caps");
      w.s += "[";
      bool first = true;
      auto init = x->capture_init_begin();
      for (auto& c : x->captures()) {
        if (!first) w.s += ",";
        first = false;
        w.s += "{";
        w.kb("byref", c.getCaptureKind() == LCK_ByRef);
        w.kb("this", c.capturesThis());
        if (c.capturesVariable()) {
          w.kv("id", vkey(c.getCapturedVar()));
          w.kv("n", c.getCapturedVar()->getNameAsString());
          if (auto* v = dyn_cast<VarDecl>(c.getCapturedVar()); v && v->isInitCapture()) child(w, "i", v->getInit());
        } else w.kv("n", "this");
        w.s += "}";
        ++init;
      }
      w.s += "]";
      w.key("ops");
      w.s += "[";
      first = true;
      auto add = [&](const FunctionDecl* f) {
        if (!f || f->isDependentContext()) return;
        if (!first) w.s += ",";
        first = false;
        w.str(fkey(f));
        enqueue(f);
      };
      if (auto* tpl = x->getDependentCallOperator()) {
        for (auto* sp : tpl->specializations()) add(sp);

      } else add(x->getCallOperator());
      w.s += "]";
      if (x->getDependentCallOperator()) w.kb("generic", true);
    } else if (auto* x = dyn_cast<InitListExpr>(e)) {
      head("InitList");
      auto* sem = x->isSemanticForm() ? x : x->getSemanticForm();
      if (!sem) sem = x;
      if (auto* rt = e->getType()->getAsCXXRecordDecl()) {
        w.key("fields");
        w.s += "[";
        bool first = true;
        for (auto& b : rt->bases()) { (void)b; if (!first) w.s += ","; first = false; w.str("<base>"); }
        for (auto* f : rt->fields()) {
          if (!first) w.s += ",";
          first = false;
          w.str(f->getNameAsString());
        }
        w.s += "]";
        w.kn("rt", type_id(rname(rt)));
      }
      list(w, "a", sem->begin(), sem->end());
    } else if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) {
      head("StdInit");
      child(w, "e", x->getSubExpr());
    } else if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) {
      head("DefArg");
      w.kv("n", x->getParam()->getNameAsString());
      child(w, "e", x->getExpr());
    } else if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) {
      head("DefInit");
      child(w, "e", x->getExpr());
    } else if (auto* x = dyn_cast<CXXThrowExpr>(e)) {
      head("Throw");
      child(w, "e", x->getSubExpr());
      if (x->getSubExpr()) w.kn("tt", type_id(tystr(x->getSubExpr()->getType())));
    } else if (auto* x = dyn_cast<CXXNewExpr>(e)) {
      head("New");
      w.kn("nt", type_id(tystr(x->getAllocatedType())));
      if (x->getInitializer()) child(w, "i", x->getInitializer());
      list(w, "a", x->placement_arg_begin(), x->placement_arg_end());
    } else if (auto* x = dyn_cast<CXXDeleteExpr>(e)) {
      head("Delete");
      child(w, "e", x->getArgument());
    } else if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) {
      head("Index");
      child(w, "x", x->getBase());
      child(w, "y", x->getIdx());
    } else if (auto* x = dyn_cast<CXXScalarValueInitExpr>(e)) {
      head("Zero");
      (void)x;
    } else if (isa<ImplicitValueInitExpr>(e)) {
      head("Zero");
    } else if (auto* x = dyn_cast<OpaqueValueExpr>(e)) {
      if (x->getSourceExpr()) { w.s.pop_back(); expr(w, x->getSourceExpr()); return; }
      head("Opaque");
    } else if (isa<PredefinedExpr>(e) || isa<SourceLocExpr>(e)) {
      head("Str");
      w.kv("v", "<predefined>");
    } else {
      Expr::EvalResult r;
      if (!e->isValueDependent() && e->getType()->isIntegralOrEnumerationType() &&
          e->EvaluateAsInt(r, ctx)) {
        head(e->getType()->isBooleanType() ? "Bool" : "Int");
        if (e->getType()->isBooleanType()) w.kn("v", r.Val.getInt().getBoolValue());
        else w.kv("v", llvm::toString(r.Val.getInt(), 10));
        w.kv("cls", e->getStmtClassName());
      } else {
        head("Expr?");
        w.kv("cls", e->getStmtClassName());
        list(w, "c", e->child_begin(), e->child_end());
      }
    }
    w.s += "}";
  }

  void const_val(W& w, const Expr* e) {
    if (e->isValueDependent() || e->getType().isNull()) return;
    QualType t = e->getType().getNonReferenceType();
    if (!t->isIntegralOrEnumerationType()) return;
    Expr::EvalResult r;
    if (e->EvaluateAsInt(r, ctx, Expr::SE_NoSideEffects)) w.kv("cv", llvm::toString(r.Val.getInt(), 10));
  }

  // ---------------------------------------------------------------------------------------------
  void emit(const std::string& s) { *g_out << s << "\n"; }

  std::string access(AccessSpecifier a) {
    return a == AS_public ? "public" : a == AS_private ? "private" : a == AS_protected ? "protected" : "none";
  }

  void function(const FunctionDecl* f0) {
    const FunctionDecl* f = nullptr;
    if (!f0->hasBody(f)) {
      // defaulted, implicit or body-less
      f = f0;
      if (!f0->isDefined(f) || !f) f = f0;
    }
    if (f->isDependentContext()) return;
    const FunctionDecl* where = f->getTemplateInstantiationPattern() ? f->getTemplateInstantiationPattern() : f;
    if (!in_roots(where)) return;
    std::string key = fkey(f);
    const Stmt* body = f->getBody();
    if (!g_done.insert((body ? "B" : "D") + key).second) return;
    W w;
    w.s = "{";
    w.kv("T", "fn");
    w.kv("id", key);
    w.kv("q", qname(f));
    w.kv("file", file_of(where->getLocation()));
    w.kn("line", line(where->getLocation()));
    w.kn("ft", type_id(tystr(f->getType())));
    w.kn("ret", type_id(tystr(f->getReturnType())));
    w.kb("nx", is_noexcept(f));
    w.kb("nr", f->isNoReturn());
    w.kb("hasbody", body != nullptr);
    w.kb("defaulted", f->isDefaulted());
    w.kb("deleted", f->isDeleted());
    w.kb("implicit", f->isImplicit());
    w.kb("inst", f->isTemplateInstantiation());
    w.kb("cx", f->isConstexpr());
    if (auto* a = f->getTemplateSpecializationArgs()) targs(w, a->asArray());
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      w.kn("rt", type_id(rname(m->getParent())));
      w.kb("static", m->isStatic());
      w.kb("constm", m->isConst());
      w.kb("virt", m->isVirtual());
      w.kv("acc", access(m->getAccess()));
      w.kb("lambda", m->getParent()->isLambda());
      if (m->getParent()->isLambda() || m->getParent()->isLocalClass()) {
        const DeclContext* p = m->getParent()->getParent();
        while (p && !isa<FunctionDecl>(p)) p = p->getParent();
        if (p) w.kv("parent", fkey(cast<FunctionDecl>(p)));
      }
      w.kb("ctor", isa<CXXConstructorDecl>(f));
      w.kb("dtor", isa<CXXDestructorDecl>(f));
      w.kb("conv", isa<CXXConversionDecl>(f));
      record(m->getParent());
    }
    w.key("params");
    w.s += "[";
    bool first = true;
    for (auto* p : f->parameters()) {
      if (!first) w.s += ",";
      first = false;
      w.s += "{";
      w.kv("id", vkey(p));
      w.kv("n", p->getNameAsString());
      w.kn("t", type_id(tystr(p->getType())));
      w.kb("def", p->hasDefaultArg());
      w.s += "}";
    }
    w.s += "]";
    if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
      w.key("inits");
      w.s += "[";
      first = true;
      for (auto* i : c->inits()) {
        if (!first) w.s += ",";
        first = false;
        w.s += "{";
        if (i->isMemberInitializer()) w.kv("f", i->getMember()->getNameAsString());
        else if (i->isBaseInitializer()) w.kv("base", tystr(QualType(i->getBaseClass(), 0)));
        else if (i->isDelegatingInitializer()) w.kb("deleg", true);
        child(w, "e", i->getInit());
        w.kb("written", i->isWritten());
        w.s += "}";
      }
      w.s += "]";
    }
    if (body) child(w, "body", body);
    w.s += "}";
    emit(w.s);
  }

  std::unordered_set<const VarDecl*> gseen;
  void global(const VarDecl* v) {
    const VarDecl* d = v->getDefinition(ctx) ? v->getDefinition(ctx) : v;
    if (!gseen.insert(d->getCanonicalDecl()).second) return;
    const VarDecl* pat = d->getTemplateInstantiationPattern();
    if (!in_roots(pat ? pat : d)) return;
    if (d->getDeclContext()->isDependentContext() || d->getType()->isDependentType()) return;
    std::string k = qname(d) + "|" + loc(d->getLocation());
    if (auto* r = dyn_cast<CXXRecordDecl>(d->getDeclContext())) k += rname(r);
    if (!g_done.insert("V" + k).second) return;
    W w;
    w.s = "{";
    w.kv("T", "var");
    w.kv("q", qname(d));
    w.kv("file", file_of(d->getLocation()));
    w.kn("line", line(d->getLocation()));
    w.kn("t", type_id(tystr(d->getType())));
    if (auto* r = dyn_cast<CXXRecordDecl>(d->getDeclContext())) w.kn("rt", type_id(rname(r)));
    w.kb("cx", d->isConstexpr());
    w.kb("const", d->getType().isConstQualified());
    w.kb("static", d->isStaticLocal());
    const VarDecl* iv = nullptr;
    if (const Expr* i = d->getAnyInitializer(iv); i && !i->isValueDependent() && !i->isTypeDependent()) child(w, "i", i);
    w.s += "}";
    emit(w.s);
  }

  void record(const CXXRecordDecl* r0) {
    const CXXRecordDecl* r = r0->getDefinition();
    if (!r || r->isDependentContext()) return;
    if (!rec_seen.insert(r->getCanonicalDecl()).second) return;
    const CXXRecordDecl* pat = r->getTemplateInstantiationPattern();
    if (!in_roots(pat ? pat : r)) return;
    if (r->isLambda()) return;
    std::string k = rname(r) + "|" + loc(r->getLocation());
    if (!g_done.insert("R" + k).second) return;
    W w;
    w.s = "{";
    w.kv("T", "rec");
    w.kv("q", rname(r));
    w.kv("n", qname(r));
    w.kv("file", file_of((pat ? pat : r)->getLocation()));
    w.kn("line", line((pat ? pat : r)->getLocation()));
    if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(r)) targs(w, sp->getTemplateArgs().asArray());
    w.key("bases");
    w.s += "[";
    bool first = true;
    for (auto& b : r->bases()) {
      if (!first) w.s += ",";
      first = false;
      w.str(tystr(b.getType()));
      if (auto* br = b.getType()->getAsCXXRecordDecl()) record(br);
    }
    w.s += "]";
    w.key("fields");
    w.s += "[";
    first = true;
    for (auto* f : r->fields()) {
      if (!first) w.s += ",";
      first = false;
      w.s += "{";
      w.kv("n", f->getNameAsString());
      w.kn("t", type_id(tystr(f->getType())));
      w.kb("mut", f->isMutable());
      w.kb("hasinit", f->hasInClassInitializer());
      w.kv("acc", access(f->getAccess()));
      w.kn("l", line(f->getLocation()));
      if (f->hasInClassInitializer() && f->getInClassInitializer() && !f->getInClassInitializer()->isValueDependent()) child(w, "i", f->getInClassInitializer());
      w.s += "}";
      if (auto* fr = f->getType()->getAsCXXRecordDecl()) record(fr);
    }
    w.s += "]";
    w.key("methods");
    w.s += "[";
    first = true;
    for (auto* m : r->methods()) {
      if (!first) w.s += ",";
      first = false;
      w.s += "{";
      w.kv("n", m->getNameAsString());
      w.kv("id", fkey(m));
      w.kn("ft", type_id(tystr(m->getType())));
      w.kn("ret", type_id(tystr(m->getReturnType())));
      w.kb("const", m->isConst());
      w.kb("static", m->isStatic());
      w.kb("deleted", m->isDeleted());
      w.kb("implicit", m->isImplicit());
      w.kb("defaulted", m->isDefaulted());
      w.kb("virt", m->isVirtual());
      w.kb("nx", is_noexcept(m));
      w.kb("lrref", m->getRefQualifier() == RQ_RValue);
      w.kv("acc", access(m->getAccess()));
      w.s += "}";
      if (!m->isImplicit()) enqueue(m);
    }
    w.s += "]";
    w.key("mtemplates");
    w.s += "[";
    first = true;
    for (auto* d : r->decls())
      if (auto* t = dyn_cast<FunctionTemplateDecl>(d)) {
        if (!first) w.s += ",";
        first = false;
        w.str(t->getNameAsString());
      }
    w.s += "]";
    w.key("friends");
    w.s += "[";
    first = true;
    for (auto* fr : r->friends()) {
      if (!first) w.s += ",";
      first = false;
      std::string s;
      if (auto* t = fr->getFriendType()) s = tystr(t->getType());
      else if (auto* nd = fr->getFriendDecl()) s = qname(nd);
      w.str(s);
    }
    w.s += "]";
    w.kb("abstract", r->isAbstract());
    w.kb("aggregate", r->isAggregate());
    w.kb("empty", r->isEmpty());
    w.s += "}";
    emit(w.s);
  }

  void enum_decl(const EnumDecl* e) {
    e = e->getDefinition();
    if (!e || !in_roots(e)) return;
    std::string q = qname(e);
    if (!g_done.insert("E" + q + loc(e->getLocation())).second) return;
    W w;
    w.s = "{";
    w.kv("T", "enum");
    w.kv("q", q);
    w.kv("file", file_of(e->getLocation()));
    w.kn("line", line(e->getLocation()));
    w.key("vals");
    w.s += "[";
    bool first = true;
    for (auto* c : e->enumerators()) {
      if (!first) w.s += ",";
      first = false;
      w.s += "[";
      w.str(c->getNameAsString());
      w.s += "," + llvm::toString(c->getInitVal(), 10) + "]";
    }
    w.s += "]}";
    emit(w.s);
  }

  void drain() {
    while (!queue.empty()) {
      auto* f = queue.front();
      queue.pop_front();
      function(f);
    }
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
 public:
  explicit Visitor(Dumper& d) : d(d) {}
  Dumper& d;
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool TraverseDecl(Decl* x) {
    // skip everything declared outside the roots at namespace level
    if (x && (isa<FunctionDecl>(x) || isa<CXXRecordDecl>(x) || isa<ClassTemplateDecl>(x) || isa<FunctionTemplateDecl>(x)) &&
        x->getDeclContext() && x->getDeclContext()->isFileContext() && !d.in_roots(x))
      return true;
    return RecursiveASTVisitor<Visitor>::TraverseDecl(x);
  }
  bool VisitFunctionDecl(FunctionDecl* f) {
    if (!f->isDependentContext() && (f->isThisDeclarationADefinition() || f->isDeleted() || f->isTemplateInstantiation() || isa<CXXMethodDecl>(f))) d.enqueue(f);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* r) {
    d.record(r);
    return true;
  }
  bool VisitEnumDecl(EnumDecl* e) { d.enum_decl(e); return true; }
  bool VisitVarDecl(VarDecl* v) {
    if ((v->isFileVarDecl() || v->isStaticDataMember()) && !v->getDeclContext()->isDependentContext() && !isa<ParmVarDecl>(v)) d.global(v);
    return true;
  }
};

class Consumer : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext& c) override {
    if (c.getDiagnostics().hasErrorOccurred()) { g_fail = 1; return; }
    Dumper d(c);
    Visitor v(d);
    v.TraverseDecl(c.getTranslationUnitDecl());
    d.drain();
  }
};
class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci, llvm::StringRef) override {
    return std::make_unique<Consumer>();
  }
};

int main(int argc, const char** argv) {
  if (argc < 5) { llvm::errs() << "usage\n"; return 2; }
  std::error_code ec;
  g_out = std::make_unique<llvm::raw_fd_ostream>(argv[1], ec);
  {
    std::string r = argv[2];
    size_t p = 0;
    while (p <= r.size()) {
      size_t q = r.find(':', p);
      if (q == std::string::npos) q = r.size();
      if (q > p) g_roots.push_back(r.substr(p, q - p));
      p = q + 1;
    }
  }
  int i = 3;
  if (std::string(argv[i]) == "--") ++i;
  std::vector<std::string> flags, files;
  for (; i < argc && std::string(argv[i]) != "--"; ++i) flags.push_back(argv[i]);
  ++i;
  for (; i < argc; ++i) files.push_back(argv[i]);
  int rc = 0;
  for (auto& f : files) {
    g_fail = 0;
    tooling::FixedCompilationDatabase db("/", flags);
    tooling::ClangTool tool(db, {f});
    int r = tool.run(tooling::newFrontendActionFactory<Action>().get());
    if (r || g_fail) { llvm::errs() << "wfdump: failed to parse " << f << "\n"; rc = 3; }
    W w;
    w.s = "{";
    w.kv("T", "tu");
    w.kv("file", f);
    w.kn("ok", !(r || g_fail));
    w.s += "}";
    *g_out << w.s << "\n";
  }
  W w;
  w.s = "{\"T\":\"types\",\"types\":[";
  for (size_t j = 0; j < g_types.size(); ++j) {
    if (j) w.s += ",";
    w.str(g_types[j]);
  }
  w.s += "]}";
  *g_out << w.s << "\n";
  g_out->flush();
  return rc;
}
