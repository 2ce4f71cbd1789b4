// Random Buzz programs over the reference AST.
#pragma once
#include "ref.hpp"

namespace ref {

struct Gen {
  Src& s;
  struct V { std::string n; char t; };           // t: i int, f float, s string, t table, c closure(1 int arg)
  std::vector<V> globals;
  std::vector<std::vector<V>> scopes;            // locals of the current function / top-level block
  std::vector<std::shared_ptr<Fn>> funs;         // callable global functions (int,int)->number
  int uid = 0, loops = 0, fundepth = 0;
  bool chaos = false;                            // allow ill-typed operands
  bool tables = true, closures = true, calls = true;
  int budget = 60;                               // statements left
  explicit Gen(Src& s_) : s(s_) {}
  // new names, now and then ones that begin as a keyword does
  std::string fresh(const char* p) {
    static const std::vector<std::string> kw = {"include_", "included", "iff", "if_", "var_", "nil_", "nily", "fora", "for_", "and_", "or_", "order", "not_", "note", "else_", "return_", "functional", "while_", "I", "Var"};
    return (s.chance(1, 24) ? s.pick(kw) : std::string(p)) + std::to_string(uid++);
  }

  static const std::vector<std::string>& words() {
    static const std::vector<std::string> w = {"a", "c", "b", "", "abc", "abd", "hello", "robot", "A", "zz", "10", "1", "two words", "x_y", "k0", "k1", "tab\there", "q'q", "#no", "b\\s", "line1\nline2"};
    return w;
  }
  std::string word() { return s.pick(words()); }
  int32_t smallint() {
    switch (s.weighted({6, 4, 2, 1})) {
      case 0: return (int32_t)s.range(0, 5);
      case 1: return (int32_t)s.range(-9, 20);
      case 2: return (int32_t)s.range(-1000, 1000);
      default: return s.pickl<int32_t>({0, 1, -1, 255, 256, 65535, 65536, 16777216, 16777217, 2147483647, -2147483647, 1 << 30});
    }
  }
  float smallflt() {
    switch (s.weighted({5, 3, 1})) {
      case 0: return (float)s.range(-8, 8) / 2.0f;
      case 1: return (float)s.range(-1000, 1000) / 8.0f;
      default: return s.pickl<float>({0.1f, 3.14159f, 1000000.5f, 0.001f, 123456.789f, -0.25f});
    }
  }
  // visible variable of type t ("" if none)
  std::string pickvar(char t) {
    std::vector<std::string> v;
    for (auto& g : globals) if (g.t == t && !shadowed(g.n)) v.push_back(g.n);
    for (size_t i = 0; i < scopes.size(); ++i) for (auto& x : scopes[i]) if (x.t == t && !hidden(x.n, i)) { v.push_back(x.n); v.push_back(x.n); }
    if (v.empty()) return "";
    return s.pick(v);
  }
  bool hidden(const std::string& n, size_t lvl) { for (size_t i = lvl + 1; i < scopes.size(); ++i) for (auto& x : scopes[i]) if (x.n == n) return true; return false; }
  // a parameter may hide a variable of an enclosing function, a loop counter or a global
  std::string param(const char* p, const std::vector<std::string>& others = {}) {
    if (!s.chance(1, 5)) return fresh(p);
    std::vector<std::string> v; for (auto& g : globals) v.push_back(g.n); for (auto& sc : scopes) for (auto& x : sc) { v.push_back(x.n); v.push_back(x.n); }
    if (v.empty()) return fresh(p);
    std::string n = s.pick(v); for (auto& o : others) if (o == n) return fresh(p);
    return n;
  }
  bool shadowed(const std::string& n) { for (auto& sc : scopes) for (auto& x : sc) if (x.n == n) return true; return false; }

  E key() {
    switch (s.weighted({4, 4, 1})) {
      case 0: return str(s.pickl<std::string>({"k0", "k1", "k2", "k3", "name"}));
      case 1: return num((int32_t)s.pickl<int>({0, 1, 2, 3, 4, 10, 11, 21, -1, -10, 7}));
      default: return flt(s.pickl<float>({0.5f, 1.5f, 2.5f, -0.5f}));
    }
  }
  E idkey() {  // constant usable in a table literal
    if (s.flip()) return str(s.pickl<std::string>({"k0", "k1", "k2", "k3", "name"}));
    return s.chance(1, 5) ? flt(s.pickl<float>({0.5f, 1.5f})) : num((int32_t)s.range(0, 12));
  }
  E leafnum(bool wantf) {
    char t = wantf ? 'f' : 'i';
    if (s.chance(3, 5)) { std::string v = pickvar(t); if (!v.empty()) return var(v); }
    return wantf ? flt(smallflt()) : num(smallint());
  }
  E numexpr(int d) {  // mostly numeric
    if (chaos && s.chance(1, 30)) return any(d - 1);
    if (d <= 0) return leafnum(s.chance(1, 4));
    switch (s.weighted({4, 9, 3, 2, 3, 2, 2})) {
      case 0: return leafnum(s.chance(1, 4));
      case 1: { std::string op = s.pickl<std::string>({"+", "-", "*", "/", "%", "+", "-", "*"});
        E a = numexpr(d - 1), b = numexpr(d - 1);
        if ((op == "/" || op == "%") && !chaos) b = s.flip() ? num((int32_t)s.range(1, 9)) : flt((float)s.range(1, 20) / 4.0f);
        return bin(op, a, b); }
      case 2: return intexpr(d);
      case 3: return un(NEG, numexpr(d - 1));
      case 4: return bin("^", s.flip() ? leafnum(s.flip()) : numexpr(d - 2), s.chance(1, 4) ? bin("^", num((int32_t)s.range(0, 2)), num((int32_t)s.range(0, 2))) : num((int32_t)s.range(0, 4)));
      case 5: if (calls && !funs.empty() && fundepth < 2) { auto& f = s.pick(funs); std::vector<E> a; for (size_t i = 0; i < f->params.size(); ++i) a.push_back(i == 0 ? num((int32_t)s.range(0, 4)) : intexpr(d - 2)); return call(var(f->name), a); }
              return leafnum(false);
      default: {
        std::string v = closures ? pickvar('c') : ""; if (!v.empty()) return call(var(v), {intexpr(d - 2)});
        std::string t = tables ? pickvar('t') : ""; if (!t.empty()) return call(var("size"), {var(t)});
        return leafnum(false); }
    }
  }
  E intexpr(int d) {
    if (d <= 0) return leafnum(false);
    switch (s.weighted({3, 4, 3, 2, 2, 2})) {
      case 0: return leafnum(false);
      case 1: return bin(s.pickl<std::string>({"+", "-", "*", "%"}), intexpr(d - 1), num((int32_t)s.range(1, 12)));
      case 2: return bin(s.pickl<std::string>({"&", "|"}), intexpr(d - 1), intexpr(d - 1));
      case 3: return bin(s.pickl<std::string>({"<<", ">>"}), s.flip() ? num((int32_t)s.range(0, 40)) : intexpr(d - 1), num((int32_t)s.range(0, 5)));
      case 4: return un(s.flip() ? BNOT : NEG, intexpr(d - 1));
      default: return s.flip() ? cond(d - 1) : bin("-", intexpr(d - 1), intexpr(d - 1));
    }
  }
  E strexpr(int) { if (s.flip()) { std::string v = pickvar('s'); if (!v.empty()) return var(v); } return str(word()); }
  E tabexpr(int d) {
    if (s.flip()) { std::string v = pickvar('t'); if (!v.empty()) return var(v); }
    E e = mk(TAB); size_t n = s.draw(4);
    for (size_t i = 0; i < n; ++i) { e->keys.push_back(idkey()); e->a.push_back(s.chance(1, 4) && d > 0 ? tabexpr(d - 1) : s.chance(1, 4) ? strexpr(0) : numexpr(d - 1)); }
    return e;
  }
  E tabread() {  // a read whose result may be anything
    std::string t = pickvar('t'); if (t.empty()) return nil();
    E b = var(t);
    E k = s.chance(1, 4) ? (E)intexpr(1) : key();
    if (k->k == STR && s.flip()) return dot(b, k->s);
    return idx(b, k);
  }
  E cond(int d) {
    if (d <= 0) return cmp(cmpop(), leafnum(false), leafnum(s.chance(1, 4)));
    switch (s.weighted({6, 3, 4, 2, 2, 1})) {
      case 0: return cmp(cmpop(), numexpr(d - 1), numexpr(d - 1));
      case 1: return cmp(cmpop(), strexpr(d - 1), strexpr(d - 1));
      case 2: return logic(s.flip() ? "and" : "or", cond(d - 1), cond(d - 1));
      case 3: return un(LNOT, cond(d - 1));
      case 4: { E x = tables && s.flip() ? tabread() : any(d - 1); bool eq = s.flip(); bool left = s.flip(); return left ? cmp(eq ? "==" : "!=", nil(), x) : cmp(eq ? "==" : "!=", x, nil()); }
      default: return any(d - 1);
    }
  }
  std::string cmpop() { return s.pickl<std::string>({"==", "!=", "<", "<=", ">", ">="}); }
  E any(int d) {
    switch (s.weighted({4, 3, 2, 2, 2, 1})) {
      case 0: return numexpr(d);
      case 1: return cond(d);
      case 2: return strexpr(d);
      case 3: return tables ? tabexpr(d) : numexpr(d);
      case 4: return tables ? tabread() : strexpr(d);
      default: if (chaos && s.chance(1, 4)) { std::string v = pickvar('c'); if (!v.empty()) return var(v); } return nil();
    }
  }
  E ofType(char t, int d) {
    switch (t) { case 'i': return intexpr(d); case 'f': return s.chance(1, 3) ? bin("*", numexpr(d - 1), flt(smallflt())) : flt(smallflt()); case 's': return strexpr(d); case 't': return tabexpr(d); default: return lambda(d); }
  }
  // lambda with one int parameter returning a number; sees the enclosing locals
  E lambda(int d) {
    auto f = std::make_shared<Fn>(); f->params = {param("p")};
    scopes.push_back({{f->params[0], 'i'}}); ++fundepth;
    int save = loops; loops = 0;
    size_t n = s.draw(3);
    for (size_t i = 0; i < n && budget > 0; ++i) stmt(f->body, 1, true);
    f->body.push_back(ret(numexpr(d > 0 ? d - 1 : 0)));
    loops = save; --fundepth; scopes.pop_back();
    return lam(f);
  }
  E lamkv(bool boolish, int extraParams = 0) {  // (k,v[,acc])
    auto f = std::make_shared<Fn>(); f->params = {param("k")}; f->params.push_back(param("v", f->params)); if (extraParams) f->params.push_back(param("acc", f->params));
    std::string v = f->params[1], k = f->params[0];
    E isnum = logic("or", call(var("isint"), {var(v)}), call(var("isfloat"), {var(v)}));
    if (extraParams) {
      E acc = var(f->params[2]);
      f->body.push_back(ifelse(call(var("isint"), {var(v)}), {ret(bin("+", acc, var(v)))}, {ret(bin("+", acc, num(1)))}));
    } else if (boolish) {
      f->body.push_back(ifst(isnum, {ret(cmp(cmpop(), var(v), num((int32_t)s.range(-3, 8))))}));
      f->body.push_back(ret(s.flip() ? call(var("isstring"), {var(k)}) : call(var("istable"), {var(v)})));
    } else {
      f->body.push_back(ifelse(isnum, {ret(bin(s.pickl<std::string>({"+", "*", "-"}), var(v), num((int32_t)s.range(0, 5))))}, {ret(s.flip() ? (E)var(k) : (E)nil())}));
    }
    return lam(f);
  }
  void logany(Block& b) {
    std::vector<E> a; size_t n = 1 + s.draw(3);
    for (size_t i = 0; i < n; ++i) a.push_back(any(2));
    b.push_back(logst(a));
  }
  void block(Block& b, int d, bool ends = false) {
    scopes.push_back({});
    size_t n = s.chance(1, 4) ? 1 : s.chance(1, 25) ? 0 : 1 + s.draw(4);
    for (size_t i = 0; i < n && budget > 0; ++i) stmt(b, d - 1, true);
    scopes.pop_back();
  }
  // bodies made of one statement, without braces
  static bool openIf(const St& x) {
    if (x->k == IF) return !x->hasElse ? true : x->bare2 && openIf(x->b2[0]);
    return (x->k == WHILE || x->k == FOR) && x->bare && openIf(x->b[0]);
  }
  St bareify(St x) {
    if (x->b.size() == 1 && s.flip() && !(x->hasElse && openIf(x->b[0]))) x->bare = true;
    if (x->hasElse && x->b2.size() == 1 && s.flip()) x->bare2 = true;
    return x;
  }
  bool inFrame() const { return !scopes.empty(); }
  void stmt(Block& b, int d, bool local) {
    --budget;
    switch (s.weighted({5, 4, 5, 4, 3, 3, 3, 2, 2, 2})) {
      case 0: logany(b); return;
      case 1: {  // declaration
        char t = s.pickl<char>({'i', 'i', 'f', 's', 't', 'c'});
        if (t == 'c' && (!closures || fundepth > 1)) t = 'i';
        if (t == 't' && !tables) t = 's';
        std::string n = fresh("v");
        if (!scopes.empty() && s.chance(1, 6)) { std::vector<std::string> v; for (auto& g : globals) if (!shadowed(g.n)) v.push_back(g.n); if (!v.empty()) n = s.pick(v); }  // a local may hide a global
        size_t lvl = scopes.size() - 1, at = 0; if (!scopes.empty()) { at = scopes[lvl].size(); scopes[lvl].push_back({n, '-'}); }  // declared, not usable in its own initialiser
        if (s.chance(1, 6)) { b.push_back(decl(n, nullptr)); b.push_back(assign(var(n), ofType(t, 2))); }
        else b.push_back(decl(n, ofType(t, 2)));
        if (!scopes.empty()) scopes[lvl][at].t = t; else globals.push_back({n, t});
        return;
      }
      case 2: {  // assignment
        char t = s.pickl<char>({'i', 'i', 'f', 's', 't', 'c'});
        if (t == 'c' && (!closures || fundepth > 1)) t = 'i';
        std::string n = pickvar(t);
        if (n.empty() || (t == 'i' && n[0] == 'z')) { n = fresh("g"); b.push_back(assign(var(n), ofType(t == 'c' ? 'i' : t, 2))); if (scopes.empty()) globals.push_back({n, t == 'c' ? 'i' : t}); return; }
        b.push_back(assign(var(n), ofType(t, 2)));
        return;
      }
      case 3: {  // table write
        std::string t = tables ? pickvar('t') : ""; if (t.empty()) { logany(b); return; }
        E k = s.chance(1, 5) ? (E)intexpr(1) : key();
        E l = k->k == STR && s.flip() ? dot(var(t), k->s) : idx(var(t), k);
        E v = s.chance(1, 5) ? (E)nil() : s.chance(1, 6) && closures && fundepth < 2 ? method() : s.chance(1, 6) ? tabexpr(1) : s.chance(1, 5) ? strexpr(0) : numexpr(1);
        b.push_back(assign(l, v));
        if (s.chance(1, 3)) b.push_back(logst({var(t), call(var("size"), {var(t)})}));
        return;
      }
      case 4: {  // if
        if (d <= 0) { logany(b); return; }
        Block x, y; E c = cond(2); block(x, d); St st = ifst(c, x);
        if (s.flip()) {
          if (s.chance(1, 3)) { Block z; block(z, d); Block w; block(w, d); St in = ifst(cond(1), z); if (s.chance(2, 3)) { in->b2 = w; in->hasElse = true; } st->b2 = {bareify(in)}; st->hasElse = true; }
          else { block(y, d); st->b2 = y; st->hasElse = true; }
        }
        b.push_back(bareify(st)); return;
      }
      case 5: {  // bounded while
        if (d <= 0 || loops >= 2) { logany(b); return; }
        std::string z = fresh("z"); b.push_back(decl(z, num(0)));
        if (!scopes.empty()) scopes.back().push_back({z, 'z'});
        ++loops; Block x; if (!s.chance(1, 8)) block(x, d); --loops;
        x.insert(x.begin() + s.draw(x.size() + 1), assign(var(z), bin("+", var(z), num(1))));
        E c = cmp("<", var(z), num((int32_t)s.range(0, 5)));
        if (s.chance(1, 3)) c = logic("and", c, cond(1));
        b.push_back(bareify(whilest(c, x))); return;
      }
      case 6: {  // for
        if (d <= 0 || loops >= 2) { logany(b); return; }
        std::string z = fresh("z"); b.push_back(decl(z, nullptr));
        if (!scopes.empty()) scopes.back().push_back({z, 'z'});
        ++loops; Block x; block(x, d); --loops;
        if (s.flip()) x.push_back(logst({var(z)}));
        int step = (int)s.range(1, 3);
        b.push_back(forst(assign(var(z), num((int32_t)s.range(-2, 2))), cmp(s.pickl<std::string>({"<", "<=", "!="}), var(z), num(5)), assign(var(z), bin("+", var(z), num(step))), x));
        if (b.back()->e->s == "!=") { b.back()->e->s = "<"; }
        if (s.chance(1, 5)) { St f = b.back(); b.back() = f->s1; f->s1 = logst({str("for"), var(z)}); b.push_back(f); }  // init and update can be calls
        if (s.chance(1, 5)) { St f = b.back(); f->b.push_back(f->s2); f->s2 = logst({str("next"), var(z)}); }
        bareify(b.back());
        return;
      }
      case 7: {  // higher-order
        std::string t = tables ? pickvar('t') : ""; if (t.empty() || !closures) { logany(b); return; }
        switch (s.draw(4)) {
          case 0: { auto f = std::make_shared<Fn>(); f->params = {param("k")}; f->params.push_back(param("v", f->params)); f->body = {logst({var(f->params[0]), var(f->params[1])})};
            b.push_back(logst({str("<<")})); b.push_back(callst(call(var("foreach"), {var(t), lam(f)}))); b.push_back(logst({str(">>")})); return; }
          case 1: b.push_back(logst({call(var("map"), {var(t), lamkv(false)})})); return;
          case 2: b.push_back(logst({call(var("filter"), {var(t), lamkv(true)})})); return;
          default: b.push_back(logst({call(var("reduce"), {var(t), lamkv(false, 1), num((int32_t)s.range(0, 3))})})); return;
        }
      }
      case 8: {  // early return
        if (fundepth == 0) { logany(b); return; }
        if (s.chance(1, 30)) { b.push_back(s.flip() ? ret(numexpr(1)) : mks(RETNIL)); logany(b); return; }  // what follows is not executed
        b.push_back(bareify(ifst(cond(1), {s.chance(1, 6) ? mks(RETNIL) : ret(numexpr(1))}))); return;
      }
      default: {  // call statement
        if (calls && !funs.empty() && fundepth < 2) { auto& f = s.pick(funs); std::vector<E> a; for (size_t i = 0; i < f->params.size(); ++i) a.push_back(i == 0 ? num((int32_t)s.range(0, 4)) : intexpr(1)); b.push_back(callst(call(var(f->name), a))); return; }
        std::string v = closures ? pickvar('c') : ""; if (!v.empty()) { b.push_back(logst({call(var(v), {intexpr(1)})})); return; }
        logany(b); return;
      }
    }
  }
  // closure using self, to be stored in a table
  E method() {
    auto f = std::make_shared<Fn>(); f->params = {param("p")};
    scopes.push_back({{f->params[0], 'i'}}); ++fundepth;
    if (s.flip()) f->body.push_back(assign(dot(var("self"), "k9"), bin("+", var(f->params[0]), num(1))));
    f->body.push_back(logst({str("m"), var(f->params[0]), call(var("isnil"), {dot(var("self"), "k1")})}));
    if (s.flip()) f->body.push_back(ret(numexpr(1)));
    --fundepth; scopes.pop_back();
    return lam(f);
  }
  // global function: first parameter bounds recursion
  std::shared_ptr<Fn> function() {
    auto f = std::make_shared<Fn>(); f->name = fresh("fun"); f->params = {param("n")}; f->params.push_back(param("a", f->params));
    bool third = s.chance(1, 3); if (!funs.empty() && s.chance(1, 10)) { auto& o = s.pick(funs); f->name = o->name; third = o->params.size() > 2; }  // the last definition counts
    if (third) f->params.push_back(param("a", f->params));
    f->doc = s.chance(1, 8);
    auto savedScopes = scopes; scopes.clear(); scopes.push_back({});
    for (size_t i = 0; i < f->params.size(); ++i) scopes[0].push_back({f->params[i], i == 0 ? 'z' : 'i'});
    fundepth = 1;
    if (s.flip()) {
      std::vector<E> a = {bin("-", var(f->params[0]), num(1))}; for (size_t i = 1; i < f->params.size(); ++i) a.push_back(i == 1 ? bin("+", var(f->params[1]), num(1)) : var(f->params[2]));
      f->body.push_back(ifst(cmp(">", var(f->params[0]), num(0)), {ret(bin("+", call(var(f->name), a), num(1)))}));
    }
    size_t n = s.draw(4); for (size_t i = 0; i < n && budget > 0; ++i) stmt(f->body, 2, true);
    if (s.chance(4, 5)) f->body.push_back(ret(numexpr(2))); else if (s.flip()) { f->body.push_back(mks(RETNIL)); }
    else f->body.push_back(logst({var(f->params[1])}));
    if (f->body.back()->k != RET) f->params.push_back(""), f->params.pop_back();
    fundepth = 0; scopes = savedScopes;
    return f;
  }
  Block program(int nst, int nfun) {
    Block fs, p;
    for (auto t : {'i', 'i', 'f', 's', 't'}) { std::string n = fresh("g"); p.push_back(assign(var(n), t == 't' ? (E)mk(TAB) : ofType(t, 0))); globals.push_back({n, t}); if (t == 't' && !tables) globals.pop_back(); }
    for (int i = 0; i < nfun; ++i) { auto f = function(); if (f->body.back()->k == RET) funs.push_back(f); fs.push_back(fundef(f)); }
    for (int i = 0; i < nst && budget > 0; ++i) stmt(p, 3, false);
    std::vector<E> fin; for (auto& g : globals) if (g.t != 'c') fin.push_back(var(g.n));
    p.push_back(logst(fin));
    // functions may be defined anywhere
    for (auto& f : fs) { if (s.flip()) p.insert(p.begin() + s.draw(p.size() + 1), f); else p.insert(p.begin(), f); }
    return p;
  }
};

}  // namespace ref
