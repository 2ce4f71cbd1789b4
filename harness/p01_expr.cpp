// Expressions: value, precedence, associativity, typing.
#include "lang.hpp"
using namespace ref; using namespace pbt;

static void exprs(Src& s, Ctx& c, bool chaos) {
  Gen g(s); g.calls = false; g.closures = false; g.chaos = chaos;
  Block p;
  for (auto t : {'i', 'i', 'i', 'f', 'f', 's', 's', 't'}) {
    std::string n = g.fresh("g");
    p.push_back(assign(var(n), t == 't' ? g.tabexpr(1) : t == 'i' ? (E)num(g.smallint()) : t == 'f' ? (E)flt(g.smallflt()) : (E)str(g.word())));
    g.globals.push_back({n, t});
  }
  size_t n = 1 + s.draw(6);
  for (size_t i = 0; i < n; ++i) {
    E e;
    switch (s.draw(4)) { case 0: e = g.numexpr(5); break; case 1: e = g.cond(4); break; case 2: e = g.intexpr(5); break; default: e = g.any(4); }
    p.push_back(logst({e}));
  }
  auto o = diffrun(p, s, c);
  c.nontrivial = o.source.size() > 150;
}
// every ordered pair of operators, with and without explicit grouping
static void pairs(Src& s, Ctx& c) {
  static const std::vector<std::string> ops = {"+", "-", "*", "/", "%", "^", "<<", ">>", "&", "|", "==", "!=", "<", "<=", ">", ">=", "and", "or"};
  std::vector<E> a; for (int i = 0; i < 4; ++i) a.push_back(num((int32_t)s.range(1, 9)));
  Gen g(s);
  auto mkop = [&](const std::string& op, E x, E y) -> E {
    if (op == "and" || op == "or") return logic(op, x, y);
    if (op.size() <= 2 && (op[0] == '=' || op[0] == '!' || ((op[0] == '<' || op[0] == '>') && (op.size() == 1 || op[1] == '=')))) return cmp(op, x, y);
    return bin(op, x, y);
  };
  std::string o1 = s.pick(ops), o2 = s.pick(ops), o3 = s.pick(ops);
  for (auto& x : a) if (s.chance(1, 4)) x = un(s.flip() ? NEG : BNOT, x);
  Block p; p.push_back(assign(var("x"), num((int32_t)s.range(-9, 9)))); p.push_back(assign(var("y"), flt(g.smallflt())));
  if (s.chance(1, 3)) a[s.draw(4)] = var("x"); if (s.chance(1, 6)) a[s.draw(4)] = var("y"); if (s.chance(1, 3)) { a[s.draw(4)] = un(NEG, var("x")); }
  E e;
  switch (s.draw(5)) {
    case 0: e = mkop(o2, mkop(o1, a[0], a[1]), a[2]); break;
    case 1: e = mkop(o1, a[0], mkop(o2, a[1], a[2])); break;
    case 2: e = mkop(o2, mkop(o1, a[0], a[1]), mkop(o3, a[2], a[3])); break;
    case 3: e = mkop(o3, mkop(o2, mkop(o1, a[0], a[1]), a[2]), a[3]); break;
    default: e = mkop(o1, a[0], mkop(o2, a[1], mkop(o3, a[2], a[3]))); break;
  }
  if (s.chance(1, 8)) e = un(LNOT, e);
  p.push_back(logst({e}));
  c.cls("op:" + o1); c.cls("op:" + o2);
  diffrun(p, s, c); c.nontrivial = true;
}
// comparison of strings/numbers: total order laws on random words
static void order(Src& s, Ctx& c) {
  std::vector<E> v; bool strs = s.flip();
  static const std::string alpha = "abcdz019 AZ_~!";
  for (int i = 0; i < 3; ++i) {
    if (strs) { std::string w; size_t n = s.draw(6); for (size_t k = 0; k < n; ++k) w += alpha[s.draw(alpha.size())]; if (i && s.chance(1, 3)) { w = v[0]->s; if (!w.empty() && s.flip()) w[s.draw(w.size())] = alpha[s.draw(alpha.size())]; else if (s.flip()) w += alpha[s.draw(alpha.size())]; } v.push_back(str(w)); }
    else if (s.chance(1, 3)) { float f = i && v[0]->k == FLT && s.chance(2, 3) ? (s.flip() ? std::nextafterf(v[0]->f, s.flip() ? INFINITY : -INFINITY) : -v[0]->f) : edgeflt(s); v.push_back(flt(std::isfinite(f) ? f : 1.0f)); }
    else v.push_back(s.flip() ? (E)num((int32_t)s.range(-5, 5)) : (E)flt((float)s.range(-10, 10) / 2));
  }
  Block p;
  for (const char* n : {"u", "v", "w"}) p.push_back(assign(var(n), v[n[0] - 'u']));
  for (const char* op : {"==", "!=", "<", "<=", ">", ">="})
    p.push_back(logst({cmp(op, var("u"), var("v")), cmp(op, var("v"), var("u")), cmp(op, var("v"), var("w")), cmp(op, var("u"), var("w")), cmp(op, v[0], v[1])}));
  for (const char* n : {"u", "v"}) p.push_back(logst({cmp("==", var(n), nil()), cmp("!=", var(n), nil()), cmp("==", nil(), var(n)), cmp("!=", nil(), var(n))}));
  diffrun(p, s, c); c.nontrivial = true;
}
// values of unlike types: a number against a string compares as text; anything but nil is smaller than a table
static void unlike(Src& s, Ctx& c) {
  E n; std::string t; char buf[80];
  if (s.flip()) { int32_t i = s.chance(1, 3) ? (int32_t)s.range(-12, 12) : (int32_t)s.range(-2147483647, 2147483647) >> s.draw(31); n = num(i); snprintf(buf, sizeof buf, "%d", i); }
  else { float f = s.chance(1, 3) ? edgeflt(s) : (float)s.range(-4000, 4000) / 16; if (!std::isfinite(f)) f = 0.5f; n = flt(f); snprintf(buf, sizeof buf, "%f", f); }
  t = buf;
  switch (s.draw(6)) {
    case 0: break;
    case 1: { size_t i = s.draw(t.size()); t[i] = s.chance(1, 2) && t[i] < '~' ? t[i] + 1 : "0123456789-. ax"[s.draw(15)]; break; }
    case 2: t = t.substr(0, s.draw(t.size() + 1)); break;
    case 3: t += "0 .9a-"[s.draw(6)]; break;
    case 4: t = std::string(1, "0 +a-"[s.draw(5)]) + t; break;
    default: t.clear(); for (size_t k = s.draw(4); k > 0; --k) t += "0123456789-. azA"[s.draw(16)]; break;
  }
  Block p;
  p.push_back(assign(var("u"), n)); p.push_back(assign(var("v"), str(t)));
  p.push_back(assign(var("w"), mk(TAB)));
  if (s.flip()) p.push_back(assign(idx(var("w"), num(1)), num(1)));
  for (const char* op : {"==", "!=", "<", "<=", ">", ">="}) {
    p.push_back(logst({cmp(op, var("u"), var("v")), cmp(op, var("v"), var("u")), cmp(op, n, str(t)), cmp(op, str(t), n)}));
    p.push_back(logst({cmp(op, var("u"), var("w")), cmp(op, var("w"), var("u")), cmp(op, var("v"), var("w")), cmp(op, var("w"), var("v"))}));
  }
  diffrun(p, s, c); c.nontrivial = true;
}
// functions against tables: smaller, like anything but nil
static void functions(Src& s, Ctx& c) {
  std::string f = s.pickl<const char*>({"function(x) { return x }", "math.abs", "log", "swarm.create", "function() { return w }"}); bool swap = s.flip(); std::string src = "w = {" + std::string(s.flip() ? ".a = 1" : "") + "}\nf = " + f + "\n"; bz::Trace e; size_t n = 1 + s.draw(6);
  for (size_t i = 0; i < n; ++i) { int k = (int)s.draw(6); static const char* op[] = {"==", "!=", "<", "<=", ">", ">="}; static const int fw[] = {0, 1, 1, 1, 0, 0}, wf[] = {0, 1, 0, 0, 1, 1}; bool sw = s.flip() != swap; src += std::string("log(") + (sw ? "w " : "f ") + op[k] + (sw ? " f" : " w") + ")\n"; e.push_back(bz::fmt("i:%d", sw ? wf[k] : fw[k])); }
  c.note(src); bz::Compiled cc; bz::compile(src, cc); if (!cc.assembled) fail("a valid program was rejected by the compiler"); bz::VM vm(1); if (!vm.load(cc.bcode)) fail("load"); vm.run(100000); if (vm.vm->state != BUZZVM_STATE_DONE) fail("the program stopped: " + vm.err()); if (vm.trace != e) fail(bz::trace_diff(e, vm.trace)); c.nontrivial = true;
}
int main(int argc, char** argv) {
  std::vector<Test> t = {
    {"expressions", [](Src& s, Ctx& c) { exprs(s, c, false); }, 24000, 600000},
    {"illtyped", [](Src& s, Ctx& c) { exprs(s, c, true); }, 10000, 250000},
    {"operator-pairs", pairs, 24000, 600000},
    {"comparisons", order, 10000, 250000},
    {"unlike-types", unlike, 8000, 200000},
    {"functions", functions, 600, 20000},
  };
  return run(argc, argv, "P01", t);
}
