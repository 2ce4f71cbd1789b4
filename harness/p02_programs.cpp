// Whole programs: statements, scoping, functions, recursion, closures, self, tables.
#include "lang.hpp"
using namespace ref; using namespace pbt;

static void progs(Src& s, Ctx& c, bool chaos, bool tables, bool closures) {
  Gen g(s); g.chaos = chaos; g.tables = tables; g.closures = closures; g.budget = 40 + (int)s.draw(60);
  Block p = g.program(2 + (int)s.draw(14), (int)s.draw(4));
  auto o = diffrun(p, s, c);
  c.nontrivial = o.source.size() > 300;
  c.cls("source-bytes", o.source.size());
}
// Closures capture the locals of the frame that creates them, by value, at creation time.
static void closures(Src& s, Ctx& c) {
  Gen g(s);
  Block p; auto mkf = std::make_shared<Fn>(); mkf->name = "make"; size_t np = 1 + s.draw(3);
  for (size_t i = 0; i < np; ++i) mkf->params.push_back("a" + std::to_string(i));
  std::vector<std::string> vis = mkf->params;
  size_t nl = s.draw(4);
  for (size_t i = 0; i < nl; ++i) { std::string n = "l" + std::to_string(i); mkf->body.push_back(decl(n, bin(s.pickl<std::string>({"+", "*", "-"}), var(s.pick(vis)), num((int32_t)s.range(1, 5))))); vis.push_back(n); }
  std::function<E(int, std::vector<std::string>)> mklam = [&](int d, std::vector<std::string> v) -> E {
    auto f = std::make_shared<Fn>(); size_t k = s.draw(3); for (size_t i = 0; i < k; ++i) { f->params.push_back(g.fresh("p")); v.push_back(f->params.back()); }
    size_t n = s.draw(3);
    for (size_t i = 0; i < n; ++i) {
      if (s.flip()) f->body.push_back(assign(var(s.pick(v)), bin("+", var(s.pick(v)), num((int32_t)s.range(1, 9)))));
      else { std::string x = g.fresh("x"); f->body.push_back(decl(x, bin("-", var(s.pick(v)), var(s.pick(v))))); v.push_back(x); }
    }
    std::vector<E> la; for (auto& x : v) la.push_back(var(x)); f->body.push_back(logst(la));
    if (d > 0 && s.flip()) {
      E in = mklam(d - 1, v); std::string nm = g.fresh("h");
      f->body.push_back(decl(nm, in));
      std::vector<E> aa; for (size_t i = 0; i < in->fn->params.size(); ++i) aa.push_back(num((int32_t)s.range(0, 9)));
      if (s.flip()) f->body.push_back(assign(var(s.pick(v)), num((int32_t)s.range(20, 30))));
      f->body.push_back(callst(call(var(nm), aa))); f->body.push_back(callst(call(var(nm), aa)));
    }
    f->body.push_back(ret(bin("+", var(s.pick(v)), var(s.pick(v)))));
    return lam(f);
  };
  E l = mklam(2, vis);
  mkf->body.push_back(decl("res", l));
  if (s.flip()) mkf->body.push_back(assign(var(s.pick(vis)), num(77)));
  std::vector<E> la; for (auto& x : vis) la.push_back(var(x)); mkf->body.push_back(logst(la));
  mkf->body.push_back(ret(var("res")));
  p.push_back(fundef(mkf));
  size_t k = 1 + s.draw(3); std::vector<std::string> cs;
  for (size_t i = 0; i < k; ++i) { std::vector<E> a; for (size_t j = 0; j < np; ++j) a.push_back(num((int32_t)s.range(0, 50))); std::string n = "c" + std::to_string(i); p.push_back(assign(var(n), call(var("make"), a))); cs.push_back(n); }
  size_t nc = 1 + s.draw(6);
  for (size_t i = 0; i < nc; ++i) { std::vector<E> a; for (size_t j = 0; j < l->fn->params.size(); ++j) a.push_back(num((int32_t)s.range(0, 50))); p.push_back(logst({call(var(s.pick(cs)), a)})); }
  diffrun(p, s, c); c.nontrivial = true;
}
// methods: self is the table the closure is stored in
static void methods(Src& s, Ctx& c) {
  Block p; Gen g(s);
  int nt = 1 + (int)s.draw(3);
  for (int i = 0; i < nt; ++i) p.push_back(assign(var("t" + std::to_string(i)), mk(TAB)));
  auto T = [&] { return "t" + std::to_string(s.draw(nt)); };
  static const std::vector<std::string> mn = {"m0", "m1", "m2"}, fn = {"f0", "f1"};
  std::map<std::string, bool> has;
  auto mkm = [&]() {
    auto f = std::make_shared<Fn>(); f->params = {g.fresh("p")};
    size_t n = 1 + s.draw(3);
    for (size_t i = 0; i < n; ++i) switch (s.draw(4)) {
      case 0: f->body.push_back(assign(dot(var("self"), s.pick(fn)), var(f->params[0]))); break;
      case 1: f->body.push_back(logst({dot(var("self"), s.pick(fn)), var(f->params[0])})); break;
      case 2: f->body.push_back(ifst(call(var("isint"), {dot(var("self"), "f0")}), {assign(dot(var("self"), "f0"), bin("+", dot(var("self"), "f0"), num(1)))})); break;
      default: { std::string m = s.pick(mn); f->body.push_back(ifst(logic("and", call(var("isclosure"), {dot(var("self"), m)}), cmp(">", var(f->params[0]), num(0))), {callst(call(dot(var("self"), m), {bin("-", var(f->params[0]), num(1))}))})); break; }
    }
    f->body.push_back(ret(dot(var("self"), "f0")));
    return lam(f);
  };
  // a method that makes a closure out of its locals and its self; the result is returned, or stored right away
  auto maker = [&](int d) {
    std::function<E(int, std::vector<std::string>)> in = [&](int d, std::vector<std::string> v) -> E { auto f = std::make_shared<Fn>(); f->params = {g.fresh("q")}; v.push_back(f->params[0]); if (s.flip()) { std::string x = g.fresh("x"); f->body.push_back(decl(x, bin("+", var(s.pick(v)), num((int32_t)s.range(1, 9))))); v.push_back(x); }
      if (s.flip()) f->body.push_back(ifst(call(var("istable"), {var("self")}), {logst({str("in"), dot(var("self"), "f0"), dot(var("self"), "f1")})})); if (s.flip()) f->body.push_back(ifst(call(var("istable"), {var("self")}), {assign(dot(var("self"), s.pick(fn)), var(s.pick(v)))})); f->body.push_back(logst({var("self"), var(s.pick(v)), var(s.pick(v))}));
      if (d > 0) { E l = in(d - 1, v); if (s.flip()) f->body.push_back(ifst(call(var("istable"), {var("self")}), {assign(dot(var("self"), s.pick(mn)), l)})); else f->body.push_back(assign(dot(var(T()), s.pick(mn)), l)); } f->body.push_back(ret(var(s.pick(v)))); return lam(f); };
    auto f = std::make_shared<Fn>(); f->params = {g.fresh("p")}; std::vector<std::string> v = f->params; if (s.flip()) { std::string x = g.fresh("x"); f->body.push_back(decl(x, bin("*", var(v[0]), num((int32_t)s.range(2, 5))))); v.push_back(x); } f->body.push_back(ret(in(d, v))); return lam(f); };
  auto glob = std::make_shared<Fn>(); glob->name = "gf"; glob->params = {"p"}; glob->body = {logst({str("gf"), var("p"), var("self")}), ret(var("p"))};
  p.push_back(fundef(glob));
  size_t n = 4 + s.draw(14);
  for (size_t i = 0; i < n; ++i) {
    std::string t = T();
    switch (s.draw(9)) {
      case 7: { std::string a = s.pickl<std::string>({"k0", "k1"}); p.push_back(assign(dot(var(t), a), maker((int)s.draw(2)))); [[fallthrough]]; }
      case 8: { std::string a = s.pickl<std::string>({"k0", "k1"}), u = T(); E made = call(dot(var(t), a), {num((int32_t)s.range(0, 9))}); Block b; if (s.chance(2, 3)) b = {assign(dot(var(u), s.pick(mn)), made)}; else { b = {assign(var("g0"), made), logst({call(var("g0"), {num((int32_t)s.range(0, 9))})})}; if (s.flip()) b.push_back(assign(dot(var(u), s.pick(mn)), var("g0"))); } p.push_back(ifst(call(var("isclosure"), {dot(var(t), a)}), b)); break; }
      case 0: case 1: { E m = mkm(); p.push_back(assign(s.flip() ? dot(var(t), s.pick(mn)) : idx(var(t), str(s.pick(mn))), m)); break; }
      case 2: p.push_back(assign(dot(var(t), s.pick(fn)), num((int32_t)s.range(0, 40)))); break;
      case 3: { std::string a = s.pick(mn); p.push_back(ifst(call(var("isclosure"), {dot(var(t), a)}), {assign(dot(var(T()), s.pick(mn)), dot(var(t), a))})); break; }  // copy a method into another table
      case 4: p.push_back(assign(dot(var(t), s.pick(mn)), var("gf"))); break;
      default: { std::string a = s.pick(mn); p.push_back(ifst(call(var("isclosure"), {dot(var(t), a)}), {logst({call(dot(var(t), a), {num((int32_t)s.range(0, 3))})})})); break; }
    }
  }
  p.push_back(logst({call(var("gf"), {num(9)})}));
  for (int i = 0; i < nt; ++i) p.push_back(logst({var("t" + std::to_string(i))}));
  diffrun(p, s, c); c.nontrivial = true;
}
// more parameters, locals and captured variables than any hand-written script has
static void wide(Src& s, Ctx& c) {
  Block p; auto mkf = std::make_shared<Fn>(); mkf->name = "make";
  size_t np = s.flip() ? 100 + s.draw(220) : s.draw(100), nl = s.flip() ? 100 + s.draw(220) : s.draw(20);
  std::vector<std::string> v; for (size_t i = 0; i < np; ++i) { mkf->params.push_back("a" + std::to_string(i)); v.push_back(mkf->params.back()); }
  if (!np) { mkf->params.push_back("a0"); v.push_back("a0"); np = 1; }
  for (size_t i = 0; i < nl; ++i) { std::string n = "l" + std::to_string(i); mkf->body.push_back(decl(n, bin("+", var(s.pick(v)), num((int32_t)s.range(1, 9))))); v.push_back(n); }
  auto some = [&](std::vector<E> e) { size_t n = 2 + s.draw(10); for (size_t i = 0; i < n; ++i) e.push_back(var(s.chance(1, 3) ? v[v.size() - 1 - s.draw(std::min<size_t>(v.size(), 4))] : s.pick(v))); return e; };
  mkf->body.push_back(logst(some({str("make")})));
  auto in = std::make_shared<Fn>(); in->params = {"q"}; for (size_t i = 0; i < 3; ++i) in->body.push_back(assign(var(s.pick(v)), bin("+", var(s.pick(v)), var("q")))); in->body.push_back(logst(some({str("in"), var("q")}))); in->body.push_back(ret(bin("+", var(v.back()), var(s.pick(v)))));
  mkf->body.push_back(decl("res", lam(in))); mkf->body.push_back(assign(var(s.pick(v)), num(-7))); mkf->body.push_back(logst(some({str("after")}))); mkf->body.push_back(ret(var("res")));
  p.push_back(fundef(mkf));
  for (int k = 0; k < 2; ++k) { std::vector<E> a; for (size_t i = 0; i < np; ++i) a.push_back(num((int32_t)(i * 3 + (size_t)k * 1000))); p.push_back(assign(var("c" + std::to_string(k)), call(var("make"), a))); }
  for (int i = 0; i < 4; ++i) p.push_back(logst({call(var(s.flip() ? "c0" : "c1"), {num((int32_t)s.range(0, 9))})}));
  diffrun(p, s, c); c.nontrivial = np + nl > 64; c.cls("captured", np + nl);
}
// references: any sequence of fields, indices and calls, as a value, as a statement and as the target of an assignment
static void chains(Src& s, Ctx& c) {
  Block p; Gen g(s); auto F = [](std::vector<std::string> params, Block b) { auto f = std::make_shared<Fn>(); f->params = params; f->body = b; return f; }; E self = var("self"); auto nilself = [&] { return call(var("isnil"), {var("self")}); };
  Block b; b.push_back(decl("r", mk(TAB))); b.push_back(assign(dot(var("r"), "id"), var("n")));
  b.push_back(assign(dot(var("r"), "me"), lam(F({}, {logst({str("me"), dot(self, "id")}), ret(self)})))); b.push_back(assign(dot(var("r"), "next"), lam(F({"a"}, {logst({str("next"), dot(self, "id"), var("a")}), ret(call(var("make"), {bin("+", dot(self, "id"), var("a"))}))}))));
  b.push_back(assign(dot(var("r"), "fn"), lam(F({}, {logst({str("fn"), dot(self, "id")}), ret(lam(F({"a"}, {logst({str("inner"), nilself(), var("a"), var("n")}), ret(call(var("make"), {bin("+", var("a"), var("n"))}))})))}))));
  b.push_back(assign(dot(var("r"), "fn0"), lam(F({"a"}, {logst({str("fn0"), dot(self, "id"), var("a")}), ret(lam(F({}, {logst({str("inner0"), nilself(), var("a")}), ret(call(var("make"), {var("a")}))})))}))));
  b.push_back(assign(dot(var("r"), "two"), lam(F({"a", "b"}, {decl("w", mk(TAB)), assign(dot(var("w"), "k"), call(var("make"), {var("a")})), assign(dot(var("w"), "l"), lam(F({}, {logst({str("l"), nilself(), var("b")}), ret(call(var("make"), {var("b")}))}))), assign(idx(var("w"), num(0)), lam(F({"x", "y"}, {logst({str("zero"), nilself(), var("x"), var("y")}), ret(var("w"))}))), ret(var("w"))}))));
  b.push_back(assign(idx(var("r"), num(3)), lam(F({}, {logst({str("three"), dot(self, "id")}), ret(lam(F({}, {logst({str("deep"), nilself()}), ret(lam(F({"z"}, {ret(call(var("make"), {var("z")}))})))})))})))); b.push_back(ret(var("r"))); auto mkf = F({"n"}, b); mkf->name = "make"; p.push_back(fundef(mkf)); p.push_back(assign(var("g0"), call(var("make"), {num(1)}))); p.push_back(assign(var("g1"), call(var("make"), {num(2)})));
  std::vector<std::string> starts = {"g0", "g1"}; int budget = 60; size_t longest = 0; struct R { E e; char t; bool called; };
  std::function<R(size_t)> chain; std::function<E(int)> arg = [&](int d) -> E { if (d > 0 && budget > 0 && s.chance(1, 4)) { R r = chain(1 + s.draw(3)); if (r.t == 'T') return s.flip() ? dot(r.e, "id") : bin("+", dot(r.e, "id"), num(1)); } return s.chance(1, 5) ? dot(var(s.pick(starts)), "id") : num((int32_t)s.range(0, 9)); };
  chain = [&](size_t n) -> R {
    R r{var(s.pick(starts)), 'T', false}; if (s.chance(1, 5)) r = {call(var("make"), {arg(0)}), 'T', true}; size_t k = 0; --budget;
    auto m = [&](const char* x) { return s.chance(1, 3) ? idx(r.e, str(x)) : dot(r.e, x); };
    for (; k < n && budget > 0; ++k) { --budget; switch (r.t) {
      case 'T': switch (s.draw(6)) { case 0: r = {call(m("me"), {}), 'T', true}; break; case 1: r = {call(m("next"), {arg(1)}), 'T', true}; break; case 2: r = {call(m("fn"), {}), '1', true}; break; case 3: r = {call(m("fn0"), {arg(1)}), '0', true}; break; case 4: r = {call(m("two"), {arg(1), arg(1)}), 'D', true}; break; default: r = {call(idx(r.e, s.flip() ? num(3) : bin("+", num(1), num(2))), {}), '3', true}; } break;
      case '1': r = {call(r.e, {arg(1)}), 'T', true}; break; case '0': r = {call(r.e, {}), 'T', true}; break; case '3': r = {call(r.e, {}), '1', true}; break;
      default: switch (s.draw(3)) { case 0: r = {m("k"), 'T', false}; break; case 1: r = {call(m("l"), {}), 'T', true}; break; default: r = {call(idx(r.e, num(0)), {arg(1), arg(1)}), 'D', true}; } } }
    longest = std::max(longest, k); return r; };
  auto stmt = [&](Block& o, const std::string& fresh, bool local) { R r = chain(1 + s.draw(7)); switch (s.draw(r.t == 'T' ? 6 : 3)) {
      case 0: if (r.called) { o.push_back(callst(r.e)); break; } [[fallthrough]]; case 1: o.push_back(local ? decl(fresh, r.e) : assign(var(fresh), r.e)); if (r.t == 'T') { o.push_back(logst({str("v"), dot(var(fresh), "id")})); if (!local) starts.push_back(fresh); } else o.push_back(logst({call(var("isclosure"), {var(fresh)}), call(var("istable"), {var(fresh)})})); break;
      case 2: if (r.t == 'T') o.push_back(ifst(cmp(s.flip() ? ">" : "==", dot(r.e, "id"), arg(1)), {logst({str("yes")})})); else o.push_back(logst({str("x"), call(var("isclosure"), {r.e})})); break; case 3: o.push_back(assign(s.flip() ? dot(r.e, "id") : idx(r.e, str("id")), arg(1))); break; case 4: o.push_back(assign(dot(r.e, "id"), bin("+", dot(r.e, "id"), num(1)))); break; default: o.push_back(logst({dot(r.e, "id"), arg(1)})); } };
  if (s.flip()) { auto f = F({"q"}, {}); f->name = "inside"; auto keep = starts; starts = {"q", "g0"}; size_t n = 1 + s.draw(3); for (size_t i = 0; i < n; ++i) stmt(f->body, "u" + std::to_string(i), true); R r = chain(2); f->body.push_back(r.t == 'T' ? ret(dot(r.e, "id")) : ret(call(var("isclosure"), {r.e}))); starts = keep; p.push_back(fundef(f)); p.push_back(logst({call(var("inside"), {var(s.pick(starts))})})); }
  size_t n = 1 + s.draw(5); for (size_t i = 0; i < n && budget > 0; ++i) stmt(p, "h" + std::to_string(i), false); p.push_back(logst({dot(var("g0"), "id"), dot(var("g1"), "id")}));
  diffrun(p, s, c); c.nontrivial = longest > 2; c.cls("longest", longest);
}
int main(int argc, char** argv) {
  std::vector<Test> t = {
    {"programs", [](Src& s, Ctx& c) { progs(s, c, false, true, true); }, 9000, 400000},
    {"simple-programs", [](Src& s, Ctx& c) { progs(s, c, false, false, false); }, 4000, 150000},
    {"illtyped-programs", [](Src& s, Ctx& c) { progs(s, c, true, true, true); }, 4000, 150000},
    {"closures", closures, 4000, 150000},
    {"methods", methods, 4000, 150000},
    {"chains", chains, 4000, 150000},
    {"wide", wide, 600, 20000},
  };
  return run(argc, argv, "P02", t);
}
