// Reference semantics of the Buzz language: an AST, a pretty-printer that emits
// Buzz source with only the parentheses the documented precedence requires, and
// a direct (tree-walking) evaluator written from the language reference,
// sharing no code with the implementation.
#pragma once
#include "vmutil.hpp"
#include <memory>

namespace ref {
using pbt::Src; using pbt::Ctx;

struct Fn;
struct Expr;
typedef std::shared_ptr<Expr> E;
struct Stmt;
typedef std::shared_ptr<Stmt> St;
typedef std::vector<St> Block;

enum K { NIL, INT, FLT, STR, VAR, TAB, IDX, DOT, CALL, NEG, BNOT, LNOT, BIN, CMP, LOGIC, LAM };
struct Expr {
  K k = NIL; std::string s; int32_t i = 0; float f = 0; std::vector<E> a; std::shared_ptr<Fn> fn;
  std::vector<E> keys;  // TAB: STR/INT/FLT constants
};
struct Fn { std::string name; std::vector<std::string> params; Block body; bool doc = false; };
enum SK { DECL, ASSIGN, CALLST, IF, WHILE, FOR, RET, RETNIL, FUNDEF };
struct Stmt {
  SK k; std::string s; E e, e2; Block b, b2; bool has = false, hasElse = false, bare = false, bare2 = false; std::shared_ptr<Fn> fn;
  St s1, s2;
};

inline E mk(K k) { E e = std::make_shared<Expr>(); e->k = k; return e; }
inline E nil() { return mk(NIL); }
inline E num(int32_t v) { E e = mk(INT); e->i = v; return e; }
// floats near each other, near zero, near the ends of the range
inline float edgeflt(pbt::Src& s) { float x = s.pickl<float>({0.0f, 1.0f, 0.1f, 3.0f, 16777216.0f, 65536.0f, 1e-6f, 1e-20f, 1.17549435e-38f, 5e-39f, 1e-44f, 1e10f, 1e20f, 3e38f, 0.33333334f}); int k = (int)s.draw(4); for (int i = 0; i < k; ++i) x = std::nextafterf(x, s.flip() ? INFINITY : 0.0f); if (!std::isfinite(x)) x = 1.0f; return s.chance(1, 3) ? -x : x; }
inline E flt(float v) { E e = mk(FLT); e->f = v; return e; }
inline E str(const std::string& s) { E e = mk(STR); e->s = s; return e; }
inline E var(const std::string& s) { E e = mk(VAR); e->s = s; return e; }
inline E dot(E t, const std::string& s) { E e = mk(DOT); e->a = {t}; e->s = s; return e; }
inline E idx(E t, E i) { E e = mk(IDX); e->a = {t, i}; return e; }
inline E call(E c, std::vector<E> args) { E e = mk(CALL); e->a = {c}; e->a.insert(e->a.end(), args.begin(), args.end()); return e; }
inline E bin(const std::string& op, E a, E b) { E e = mk(BIN); e->s = op; e->a = {a, b}; return e; }
inline E cmp(const std::string& op, E a, E b) { E e = mk(CMP); e->s = op; e->a = {a, b}; return e; }
inline E logic(const std::string& op, E a, E b) { E e = mk(LOGIC); e->s = op; e->a = {a, b}; return e; }
inline E un(K k, E a) { E e = mk(k); e->a = {a}; return e; }
inline E lam(std::shared_ptr<Fn> f) { E e = mk(LAM); e->fn = f; return e; }
inline St mks(SK k) { St s = std::make_shared<Stmt>(); s->k = k; return s; }
inline St assign(E l, E r) { St s = mks(ASSIGN); s->e = l; s->e2 = r; return s; }
inline St decl(const std::string& n, E r) { St s = mks(DECL); s->s = n; s->e = r; s->has = (bool)r; return s; }
inline St callst(E c) { St s = mks(CALLST); s->e = c; return s; }
inline St ret(E e) { St s = mks(RET); s->e = e; return s; }
inline St logst(std::vector<E> args) { return callst(call(var("log"), args)); }
inline St ifst(E c, Block a) { St s = mks(IF); s->e = c; s->b = a; return s; }
inline St ifelse(E c, Block a, Block b) { St s = ifst(c, a); s->b2 = b; s->hasElse = true; return s; }
inline St whilest(E c, Block b) { St s = mks(WHILE); s->e = c; s->b = b; return s; }
inline St forst(St i, E c, St u, Block b) { St s = mks(FOR); s->s1 = i; s->e = c; s->s2 = u; s->b = b; return s; }
inline St fundef(std::shared_ptr<Fn> f) { St s = mks(FUNDEF); s->fn = f; return s; }

// ---------------------------------------------------------------- printing
struct Printer {
  Src* src = nullptr;  // layout noise source (may be null)
  int ind = 0;
  bool noise(unsigned n, unsigned d) { return src && src->chance(n, d); }
  std::string sp() { return noise(1, 12) ? (src->flip() ? "  " : "\t") : noise(1, 40) ? "\n" : " "; }
  std::string rsp() { return noise(1, 25) ? sp() : ""; }
  std::string osp() { return noise(1, 10) ? sp() : ""; }
  static std::string fnum(float f) {
    char b[64]; snprintf(b, sizeof b, "%.9g", std::fabs(f)); std::string s = b;
    if (s.find('e') != std::string::npos || s.find("inf") != std::string::npos) { char l[256]; snprintf(l, sizeof l, "%.160f", std::fabs(f)); s = l; while (s.back() == '0') s.pop_back(); if (s.back() == '.') s += '0'; }
    if (s.find('.') == std::string::npos) s += ".0";
    return (std::signbit(f) ? "-" : "") + s;
  }
  std::string quote(const std::string& s) {
    char q = noise(1, 3) && s.find('\'') == std::string::npos ? '\'' : '"';
    std::string o(1, q);
    for (char c : s) { if (c == q) { o += '\\'; o += c; } else if (c == '\\') o += "\\\\"; else if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t"; else o += c; }
    return o + q;
  }
  static int level(const E& e) {
    switch (e->k) {
      case LNOT: case LOGIC: return 0;
      case CMP: return 1;
      case TAB: return 2;
      case BIN: {
        const std::string& o = e->s;
        if (o == "+" || o == "-") return 2;
        if (o == "*" || o == "/") return 3;
        if (o == "%") return 4;
        if (o == "^") return 5;
        if (o == "<<" || o == ">>") return 6;
        return 7;
      }
      case BNOT: return 8;
      default: return 9;
    }
  }
  std::string at(const E& e, int lvl) {
    std::string s = expr(e);
    if (level(e) < lvl || (e->k == TAB && lvl > 2) || noise(1, 25)) return "(" + osp() + s + osp() + ")";
    return s;
  }
  std::string expr(const E& e) {
    switch (e->k) {
      case NIL: return "nil";
      case INT: return std::to_string(e->i);
      case FLT: return fnum(e->f);
      case STR: return quote(e->s);
      case VAR: return e->s;
      case TAB: {
        std::string s = "{" + osp();
        for (size_t i = 0; i < e->keys.size(); ++i) {
          if (i) s += "," + osp();
          const E& k = e->keys[i];
          s += "." + (k->k == STR ? k->s : expr(k)) + sp() + "=" + osp() + at(e->a[i], 2);
        }
        return s + osp() + "}";
      }
      case IDX: return expr(e->a[0]) + rsp() + "[" + osp() + at(e->a[1], 2) + osp() + "]";
      case DOT: return expr(e->a[0]) + rsp() + "." + rsp() + e->s;
      case CALL: {
        std::string s = expr(e->a[0]) + rsp() + "(" + osp();
        for (size_t i = 1; i < e->a.size(); ++i) { if (i > 1) s += "," + osp(); s += at(e->a[i], 0); }
        return s + osp() + ")";
      }
      case NEG: return "-" + osp() + at(e->a[0], 8);
      case BNOT: return "!" + at(e->a[0], 8);
      case LNOT: return "not " + at(e->a[0], 0);
      case BIN: {
        int l = level(e); int L = l, R = l + 1;
        if (e->s == "^") { L = 6; R = 5; }
        if (e->a[0]->k == TAB) L = 3;
        return at(e->a[0], L) + sp() + e->s + sp() + at(e->a[1], R);
      }
      case CMP: return at(e->a[0], 2) + sp() + e->s + sp() + at(e->a[1], 2);
      case LOGIC: {
        const E& l = e->a[0];
        return at(l, l->k == LOGIC ? 0 : 1) + sp() + e->s + sp() + at(e->a[1], 1);
      }
      case LAM: return "function(" + params(*e->fn) + ")" + sp() + block(e->fn->body);
    }
    return "?";
  }
  std::string params(const Fn& f) { std::string s; for (size_t i = 0; i < f.params.size(); ++i) s += (i ? ", " : "") + f.params[i]; return s; }
  std::string pad() { return std::string(ind * 2, ' '); }
  std::string nl() {
    if (noise(1, 12)) return src->flip() ? " # note\n" : "\n\n";
    if (noise(1, 14)) return "; ";
    return "\n";
  }
  std::string block(const Block& b) {
    if (b.empty()) return "{ }";
    std::string s = "{\n"; ++ind;
    for (auto& x : b) s += pad() + stmt(x) + (&x == &b.back() && noise(1, 8) ? std::string(" ") : nl());
    --ind;
    return s + pad() + "}";
  }
  std::string body(const Block& b, bool bare) { return bare ? (noise(1, 3) ? "\n" + pad() + "  " : std::string("")) + stmt(b[0]) : block(b); }
  std::string simple(const St& s) {
    switch (s->k) {
      case ASSIGN: return expr(s->e) + sp() + "=" + sp() + at(s->e2, 2);
      case CALLST: return expr(s->e);
      default: return stmt(s);
    }
  }
  std::string stmt(const St& s) {
    switch (s->k) {
      case DECL: return "var " + s->s + (s->has ? " = " + at(s->e, 2) : "");
      case ASSIGN: case CALLST: return simple(s);
      case IF: {
        std::string r = "if" + osp() + "(" + at(s->e, 0) + ")" + sp();
        r += body(s->b, s->bare);
        if (s->hasElse) { if (s->bare) r += s->b[0]->k == RETNIL ? nl() + pad() : src && src->flip() ? " " : "\n" + pad(); r += sp() + "else " + body(s->b2, s->bare2); }
        return r;
      }
      case WHILE: return "while" + osp() + "(" + at(s->e, 0) + ")" + sp() + body(s->b, s->bare);
      case FOR: return "for(" + simple(s->s1) + ", " + at(s->e, 0) + ", " + simple(s->s2) + ")" + sp() + body(s->b, s->bare);
      case RET: return "return " + at(s->e, 0);
      case RETNIL: return "return";
      case FUNDEF: return "function " + s->fn->name + "(" + params(*s->fn) + ")" + sp() + (s->fn->doc ? "\"doc string\" " : "") + block(s->fn->body);
    }
    return "?";
  }
  std::string program(const Block& b) {
    std::string o; for (auto& x : b) o += stmt(x) + nl(); return o;
  }
};

// ---------------------------------------------------------------- values
struct Val; struct Table; struct Clos;
typedef std::shared_ptr<Table> TP; typedef std::shared_ptr<Clos> CP;
enum VT { VNIL, VINT, VFLT, VSTR, VTAB, VCLO };
struct Val {
  VT t = VNIL; int32_t i = 0; float f = 0; std::string s; TP tab; CP clo;
};
struct Table { std::vector<std::pair<Val, Val>> kv; };
typedef std::map<std::string, Val> Env;
struct Clos { std::shared_ptr<Fn> fn; Env cap; std::string builtin; };

inline Val vi(int32_t x) { Val v; v.t = VINT; v.i = x; return v; }
inline Val vf(float x) { Val v; v.t = VFLT; v.f = x; return v; }
inline Val vs(const std::string& s) { Val v; v.t = VSTR; v.s = s; return v; }
inline bool truthy(const Val& v) { return !(v.t == VNIL || (v.t == VINT && v.i == 0)); }
inline bool keyeq(const Val& a, const Val& b) {
  if (a.t == VSTR || b.t == VSTR) return a.t == b.t && a.s == b.s;
  double x = a.t == VINT ? (double)a.i : (double)a.f, y = b.t == VINT ? (double)b.i : (double)b.f; return x == y;
}

struct DumpR {
  int depth = 0; std::vector<Table*> path;
  std::string dump(const Val& v) {
    switch (v.t) {
      case VNIL: return "nil"; case VINT: return "i:" + std::to_string(v.i); case VFLT: return bz::fl(v.f);
      case VSTR: return "s:" + bz::qs(v.s); case VCLO: return v.clo->builtin.empty() ? "closure" : "cclosure";
      case VTAB: {
        for (Table* x : path) if (x == v.tab.get()) return "t{cycle}";
        if (depth > 4) return "t{...}";
        path.push_back(v.tab.get());
        ++depth; std::vector<std::string> it; for (auto& p : v.tab->kv) it.push_back(dump(p.first) + "=" + dump(p.second)); --depth; path.pop_back();
        std::sort(it.begin(), it.end()); std::string s = "t{"; for (size_t i = 0; i < it.size(); ++i) s += (i ? "," : "") + it[i]; return s + "}";
      }
    }
    return "?";
  }
};

struct Ambig { std::string why; };   // behaviour the reference leaves open: compare the prefix only
struct RtErr { std::string why; };   // run-time error: the machine must stop in its error state
struct TooLong {};

struct Interp {
  Env globals;
  bz::Trace trace;
  uint64_t fuel = 60000;
  int depth = 0;
  uint64_t calls = 0, errors = 0;
  std::map<std::string, uint64_t> feat;
  struct Ret { Val v; };
  // current frame: nullptr at global scope outside blocks
  struct Frame { std::vector<Env> scopes; Val ctxself; };
  Frame* fr = nullptr;
  void tick() { if (fuel-- == 0) throw TooLong(); }

  Val* lookup(const std::string& n) {
    if (fr) for (size_t i = fr->scopes.size(); i-- > 0;) { auto it = fr->scopes[i].find(n); if (it != fr->scopes[i].end()) return &it->second; }
    return nullptr;
  }
  static float asf(const Val& v) { return v.t == VINT ? (float)v.i : v.f; }
  static int32_t chk(int64_t x) { if (x < INT32_MIN || x > INT32_MAX) throw Ambig{"integer overflow"}; return (int32_t)x; }
  Val arith(const std::string& op, const Val& a, const Val& b) {
    bool an = a.t == VINT || a.t == VFLT, bn = b.t == VINT || b.t == VFLT;
    if (op == "&" || op == "|" || op == "<<" || op == ">>") {
      if (a.t != VINT || b.t != VINT) throw RtErr{"bitwise on non-int"};
      if (op == "&") return vi(a.i & b.i);
      if (op == "|") return vi(a.i | b.i);
      if (b.i < 0 || b.i > 31) throw Ambig{"shift count"};
      if (op == "<<") { if (a.i < 0) throw Ambig{"negative shift"}; return vi(chk((int64_t)a.i << b.i)); }
      return vi(a.i >= 0 ? a.i >> b.i : ~(~a.i >> b.i));   // keeps the sign
    }
    if (!an || !bn) throw RtErr{"arithmetic on non-number"};
    if (op == "^") return vf(powf(asf(a), asf(b)));
    if (a.t == VINT && b.t == VINT) {
      int64_t x = a.i, y = b.i;
      if (op == "+") return vi(chk(x + y));
      if (op == "-") return vi(chk(x - y));
      if (op == "*") return vi(chk(x * y));
      if (y == 0) throw RtErr{"integer division by zero"};
      if (op == "/") return vi(chk(x / y));
      if (y == -1) chk(x / y);
      int64_t r = x % y; if (r < 0) r += y < 0 ? -y : y; return vi((int32_t)r);
    }
    float x = asf(a), y = asf(b);
    if (op == "+") return vf(x + y);
    if (op == "-") return vf(x - y);
    if (op == "*") return vf(x * y);
    if (op == "/") return vf(x / y);
    if (!(y > 0) && !(y < 0)) throw Ambig{"float modulo by zero or nan"};
    float r = fmodf(x, y); if (r < 0) r += fabsf(y); return vf(r);
  }
  // comparison of two values: -1,0,1
  int compare(const Val& a, const Val& b) {
    bool an = a.t == VINT || a.t == VFLT, bn = b.t == VINT || b.t == VFLT;
    if (an && bn) {
      if (a.t == VINT && b.t == VINT) return a.i < b.i ? -1 : a.i > b.i;
      if ((a.t == VINT && (double)(float)a.i != (double)a.i) || (b.t == VINT && (double)(float)b.i != (double)b.i)) throw Ambig{"int with no exact float, compared with a float"};
      float x = asf(a), y = asf(b); if (std::isnan(x) || std::isnan(y)) throw Ambig{"nan comparison"};
      return x < y ? -1 : x > y;
    }
    if (a.t == VSTR && b.t == VSTR) { int c = strcmp(a.s.c_str(), b.s.c_str()); return c < 0 ? -1 : c > 0; }
    if ((a.t == VSTR && bn) || (an && b.t == VSTR)) {   // a number against a string: by its text
      std::string x = text(a), y = text(b); int c = strcmp(x.c_str(), y.c_str()); return c < 0 ? -1 : c > 0;
    }
    if (a.t == VTAB && b.t != VTAB) return 1;           // anything else is smaller than a table
    if (b.t == VTAB && a.t != VTAB) return -1;
    throw Ambig{"comparison of unlike types"};
  }
  static std::string text(const Val& v) {
    char buf[80];
    if (v.t == VINT) { snprintf(buf, sizeof buf, "%d", v.i); return buf; }
    if (v.t == VFLT) { if (!std::isfinite(v.f)) throw Ambig{"text of a float that is not finite"}; snprintf(buf, sizeof buf, "%f", v.f); return buf; }
    return v.s;
  }
  Val docmp(const std::string& op, const Val& a, const Val& b) {
    if (a.t == VNIL || b.t == VNIL) {
      bool eq = a.t == b.t;
      if (op == "==") return vi(eq);
      if (op == "!=") return vi(!eq);
      throw Ambig{"ordering with nil"};
    }
    if ((a.t == VCLO || b.t == VCLO) && a.t != VTAB && b.t != VTAB) throw RtErr{"comparison of a closure"};
    if (a.t == VTAB && b.t == VTAB) {
      if (op == "==") return vi(a.tab == b.tab);
      if (op == "!=") return vi(a.tab != b.tab);
      throw Ambig{"ordering of tables"};
    }
    int c = compare(a, b);
    if (op == "==") return vi(c == 0);
    if (op == "!=") return vi(c != 0);
    if (op == "<") return vi(c < 0);
    if (op == "<=") return vi(c <= 0);
    if (op == ">") return vi(c > 0);
    return vi(c >= 0);
  }
  void tput(const Val& t, const Val& k, Val v) {
    if (t.t != VTAB) throw RtErr{"not a table"};
    if (k.t != VINT && k.t != VFLT && k.t != VSTR) throw RtErr{"bad key"};
    if (v.t == VCLO) { CP c = std::make_shared<Clos>(*v.clo); c->cap["self"] = t; v.clo = c; }
    auto& kv = t.tab->kv;
    for (size_t i = 0; i < kv.size(); ++i)
      if (keyeq(kv[i].first, k)) { if (v.t == VNIL) kv.erase(kv.begin() + i); else { kv[i].second = v; kv[i].first = k; } return; }
    if (v.t != VNIL) kv.push_back({k, v});
  }
  Val tget(const Val& t, const Val& k) {
    if (t.t != VTAB) throw RtErr{"not a table"};
    if (k.t != VINT && k.t != VFLT && k.t != VSTR) throw RtErr{"bad key"};
    for (auto& p : t.tab->kv) if (keyeq(p.first, k)) return p.second;
    return Val();
  }
  Val eval(const E& e) {
    tick();
    switch (e->k) {
      case NIL: return Val();
      case INT: return vi(e->i);
      case FLT: return vf(e->f);
      case STR: return vs(e->s);
      case VAR: { if (Val* p = lookup(e->s)) return *p; auto it = globals.find(e->s); return it == globals.end() ? Val() : it->second; }
      case TAB: {
        Val t; t.t = VTAB; t.tab = std::make_shared<Table>();
        for (size_t i = 0; i < e->keys.size(); ++i) { Val k = eval(e->keys[i]); tput(t, k, eval(e->a[i])); }
        return t;
      }
      case IDX: { Val t = eval(e->a[0]); Val k = eval(e->a[1]); return tget(t, k); }
      case DOT: { Val t = eval(e->a[0]); return tget(t, vs(e->s)); }
      case CALL: return docall(e);
      case NEG: { Val v = eval(e->a[0]); if (v.t == VINT) return vi(chk(-(int64_t)v.i)); if (v.t == VFLT) return vf(-v.f); throw RtErr{"unary minus"}; }
      case BNOT: { Val v = eval(e->a[0]); if (v.t != VINT) throw RtErr{"bitwise not"}; return vi(~v.i); }
      case LNOT: { Val v = eval(e->a[0]); return vi(!truthy(v)); }
      case BIN: { Val a = eval(e->a[0]); Val b = eval(e->a[1]); return arith(e->s, a, b); }
      case CMP: { Val a = eval(e->a[0]); Val b = eval(e->a[1]); return docmp(e->s, a, b); }
      case LOGIC: { bool a = truthy(eval(e->a[0])), b = truthy(eval(e->a[1])); return vi(e->s == "and" ? (a && b) : (a || b)); }
      case LAM: {
        CP c = std::make_shared<Clos>(); c->fn = e->fn;
        if (fr) for (auto& sc : fr->scopes) for (auto& kv : sc) c->cap[kv.first] = kv.second;
        if (!c->cap.count("self")) c->cap["self"] = Val();
        Val v; v.t = VCLO; v.clo = c; return v;
      }
    }
    return Val();
  }
  Val invoke(const Val& f, const std::vector<Val>& args) {
    if (f.t != VCLO) throw RtErr{"call of a non-closure"};
    ++calls;
    if (!f.clo->builtin.empty()) return builtin(f.clo->builtin, args);
    if (++depth > 60) { --depth; throw TooLong(); }
    const Fn& fn = *f.clo->fn;
    Frame nf; nf.scopes.push_back(f.clo->cap); if (!nf.scopes[0].count("self")) nf.scopes[0]["self"] = Val();
    if (args.size() != fn.params.size()) throw Ambig{"arity mismatch"};
    for (size_t i = 0; i < fn.params.size(); ++i) nf.scopes[0][fn.params[i]] = args[i];
    Frame* old = fr; fr = &nf; Val r;
    try { exec(fn.body); } catch (Ret& x) { r = x.v; } catch (...) { fr = old; --depth; throw; }
    fr = old; --depth;
    return r;
  }
  Val docall(const E& e) {
    Val f = eval(e->a[0]);
    std::vector<Val> args; for (size_t i = 1; i < e->a.size(); ++i) args.push_back(eval(e->a[i]));
    return invoke(f, args);
  }
  std::function<bool(Interp&, const std::string&, const std::vector<Val>&, Val&)> extra;  // further builtins
  Val builtin(const std::string& n, const std::vector<Val>& a) {
    Val r;
    if (extra && extra(*this, n, a, r)) return r;
    if (n == "log") { std::string l; DumpR d; for (size_t i = 0; i < a.size(); ++i) l += (i ? " " : "") + d.dump(a[i]); trace.push_back(l); return Val(); }
    if (n == "size") { if (a.size() != 1 || a[0].t != VTAB) throw RtErr{"size"}; return vi(a[0].tab->kv.size()); }
    if (n == "foreach") { need(a, 2); auto kv = a[0].tab->kv; for (auto& p : kv) invoke(a[1], {p.first, p.second}); return Val(); }
    if (n == "map") { need(a, 2); Val t; t.t = VTAB; t.tab = std::make_shared<Table>(); auto kv = a[0].tab->kv; for (auto& p : kv) { Val v = invoke(a[1], {p.first, p.second}); if (v.t == VCLO) throw Ambig{"closure from map"}; tput(t, p.first, v); } return t; }
    if (n == "filter") { need(a, 2); Val t; t.t = VTAB; t.tab = std::make_shared<Table>(); auto kv = a[0].tab->kv; for (auto& p : kv) { Val v = invoke(a[1], {p.first, p.second}); if (p.second.t == VCLO) throw Ambig{"closure from filter"}; if (truthy(v)) t.tab->kv.push_back(p); } return t; }
    if (n == "reduce") { need(a, 3); Val acc = a[2]; auto kv = a[0].tab->kv; for (auto& p : kv) acc = invoke(a[1], {p.first, p.second, acc}); return acc; }
    if (n == "isnil" || n == "isint" || n == "isfloat" || n == "isstring" || n == "istable" || n == "isclosure") {
      if (a.size() != 1) throw RtErr{"arity"};
      VT t = a[0].t;
      bool b = n == "isnil" ? t == VNIL : n == "isint" ? t == VINT : n == "isfloat" ? t == VFLT : n == "isstring" ? t == VSTR : n == "istable" ? t == VTAB : t == VCLO;
      return vi(b);
    }
    if (n == "type") {
      if (a.size() != 1) throw RtErr{"arity"};
      switch (a[0].t) { case VNIL: return vs("nil"); case VINT: return vs("integer"); case VFLT: return vs("float"); case VSTR: return vs("string"); case VTAB: return vs("table"); case VCLO: return vs("closure"); }
    }
    if (n == "clone") { if (a.size() != 1) throw RtErr{"arity"}; return clone(a[0]); }
    throw std::runtime_error("unknown builtin " + n);
  }
  Val clone(const Val& v) {
    if (v.t != VTAB) return v;
    Val t; t.t = VTAB; t.tab = std::make_shared<Table>();
    for (auto& p : v.tab->kv) { if (p.second.t == VCLO) throw Ambig{"clone of a method"}; t.tab->kv.push_back({p.first, clone(p.second)}); }
    return t;
  }
  void need(const std::vector<Val>& a, size_t n) { if (a.size() != n) throw RtErr{"arity"}; if (a[0].t != VTAB) throw RtErr{"table expected"}; if (a[1].t != VCLO) throw RtErr{"closure expected"}; }
  void bindBuiltins() {
    for (const char* n : {"log", "size", "foreach", "map", "filter", "reduce", "isnil", "isint", "isfloat", "isstring", "istable", "isclosure", "type", "clone"}) {
      Val v; v.t = VCLO; v.clo = std::make_shared<Clos>(); v.clo->builtin = n; globals[n] = v;
    }
  }
  void execBlock(const Block& b) {
    Frame gf; bool mine = false;
    if (!fr) { fr = &gf; gf.scopes.push_back(Env()); gf.scopes[0]["self"] = Val(); mine = true; }
    fr->scopes.push_back(Env());
    struct G { Interp* i; bool mine; Frame* f; ~G() { f->scopes.pop_back(); if (mine) i->fr = nullptr; } } g{this, mine, fr};
    exec(b);
  }
  // the body of a branch or loop is a scope of its own, except a single statement in the global scope
  void execBody(const Block& b, bool bare) { if (bare && !fr) exec(b); else execBlock(b); }
  void exec(const Block& b) { for (auto& s : b) exec(s); }
  void assignTo(const E& l, const E& r) {
    if (l->k == VAR) {
      Val v = eval(r);
      if (Val* p = lookup(l->s)) *p = v; else globals[l->s] = v;
    } else if (l->k == IDX) { Val t = eval(l->a[0]); Val k = eval(l->a[1]); Val v = eval(r); tput(t, k, v); }
    else { Val t = eval(l->a[0]); Val v = eval(r); tput(t, vs(l->s), v); }
  }
  void exec(const St& s) {
    tick();
    switch (s->k) {
      case DECL: {
        if (!fr) { globals[s->s] = s->has ? eval(s->e) : Val(); return; }
        fr->scopes.back()[s->s] = Val();
        Val v = s->has ? eval(s->e) : Val();
        fr->scopes.back()[s->s] = v;
        return;
      }
      case ASSIGN: assignTo(s->e, s->e2); return;
      case CALLST: eval(s->e); return;
      case IF:
        if (truthy(eval(s->e))) execBody(s->b, s->bare); else if (s->hasElse) execBody(s->b2, s->bare2);
        return;
      case WHILE: while (truthy(eval(s->e))) { tick(); execBody(s->b, s->bare); } return;
      case FOR: exec(s->s1); while (truthy(eval(s->e))) { tick(); execBody(s->b, s->bare); exec(s->s2); } return;
      case RET: { Val v = eval(s->e); throw Ret{v}; }
      case RETNIL: throw Ret{Val()};
      case FUNDEF: return;  // hoisted
    }
  }
  // outcome: 0 done, 1 runtime error, 2 ambiguous (prefix only), 3 too long
  int run(const Block& prog, std::string* why = nullptr) {
    bindBuiltins();
    for (auto& s : prog) if (s->k == FUNDEF) { Val v; v.t = VCLO; v.clo = std::make_shared<Clos>(); v.clo->fn = s->fn; v.clo->cap["self"] = Val(); globals[s->fn->name] = v; }
    try { exec(prog); return 0; }
    catch (RtErr& e) { if (why) *why = e.why; return 1; }
    catch (Ret&) { if (why) *why = "return outside of a function"; return 1; }
    catch (Ambig& e) { if (why) *why = e.why; return 2; }
    catch (TooLong&) { return 3; }
  }
};

// Markers "<<" and ">>" (logged by the program) delimit lines whose order is unspecified (table iteration).
inline bz::Trace normalise(const bz::Trace& t) {
  bz::Trace o; size_t i = 0;
  while (i < t.size()) {
    o.push_back(t[i]);
    if (t[i] == "s:'<<'") {
      size_t j = i + 1; while (j < t.size() && t[j] != "s:'>>'") ++j;
      if (j < t.size()) { std::vector<std::string> g(t.begin() + i + 1, t.begin() + j); std::sort(g.begin(), g.end()); o.insert(o.end(), g.begin(), g.end()); i = j; continue; }
      // group never closed (error inside): order unknown, keep only the marker
      return o;
    }
    ++i;
  }
  return o;
}

}  // namespace ref
