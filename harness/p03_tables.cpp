// Tables: map semantics over generated operation histories.
#include "lang.hpp"
#include "iter.hpp"
using namespace ref; using namespace pbt;

static E rkey(Src& s) {
  switch (s.weighted({8, 6, 6, 4, 4, 2, 2})) {
    case 5: return flt(edgeflt(s));
    case 0: return num((int32_t)s.range(0, 12));
    case 6: { float f = s.flip() ? (float)s.range(-2147483647, 2147483647) : (float)s.pickl<int>({1000000000, -1000000000, 16777216, -16777216, 1500000000, -1500000000, 33554432, -2000000000, 123456 * 16, -65536}); return s.flip() || std::fabs(f) >= 2147483520.0f ? (E)flt(f) : (E)num((int32_t)f); }   // a float and the int equal to it are the same key
    case 1: return num((int32_t)s.pickl<int>({-1, -2, -9, -10, -11, -20, 100, 110, 1000, 1010, 65535, 65536, 2147483647, -2147483647}));
    case 2: return str(s.pickl<std::string>({"a", "b", "c", "key", "x1", "x2", "x3", "longer key with spaces", ""}));
    case 3: return str(s.pickl<std::string>({"0", "1", "2", "10", "11", "-1", "0.500000", "1.000000", "1.5"}));
    default: return flt(s.pickl<float>({0.5f, 1.5f, -0.5f, -1.5f, 10.25f, 1.0f, 2.0f, -1.0f, -10.0f, 99.75f}));
  }
}
static E rval(Src& s, const std::vector<std::string>& tabs) {
  switch (s.weighted({5, 2, 2, 3, 2})) {
    case 0: return num((int32_t)s.range(-50, 50));
    case 1: return flt((float)s.range(-20, 20) / 4);
    case 2: return str(s.pickl<std::string>({"v", "w", "", "value"}));
    case 3: return nil();
    default: return s.flip() ? (E)mk(TAB) : (E)var(s.pick(tabs));
  }
}
static E lam2(const char* a, const char* b, Block body) { auto f = std::make_shared<Fn>(); f->params = {a, b}; f->body = body; return lam(f); }

static void history(Src& s, Ctx& c) {
  Block p; std::vector<std::string> tabs; int nt = 1 + (int)s.draw(3);
  for (int i = 0; i < nt; ++i) { tabs.push_back("t" + std::to_string(i)); p.push_back(assign(var(tabs[i]), mk(TAB))); }
  size_t n = 5 + s.len(60);
  for (size_t i = 0; i < n; ++i) {
    std::string t = s.pick(tabs); E T = var(t);
    switch (s.weighted({12, 4, 3, 2, 2, 2, 2, 2, 3, 1})) {
      case 0: { E k = rkey(s); E l = k->k == STR && !k->s.empty() && isalpha(k->s[0]) && k->s.find(' ') == std::string::npos && s.flip() ? dot(T, k->s) : idx(T, k); p.push_back(assign(l, rval(s, tabs))); break; }
      case 1: { E k = rkey(s); p.push_back(logst({idx(T, k), call(var("size"), {T})})); break; }
      case 2: p.push_back(logst({T, call(var("size"), {T})})); break;
      case 3: p.push_back(logst({str("<<")})); p.push_back(callst(call(var("foreach"), {T, lam2("k", "v", {logst({var("k"), var("v")})})}))); p.push_back(logst({str(">>")})); break;
      case 4: p.push_back(logst({call(var("map"), {T, lam2("k", "v", {ifelse(call(var("isint"), {var("v")}), {ret(bin("*", var("v"), num(3)))}, {ret(s.pickl<E>({var("k"), nil(), mk(TAB), T, var("v"), flt(0.0f), num(0), str(""), var("foreach")}))})})})})); break;
      case 5: if (s.flip()) { E r = s.pickl<E>({var("v"), var("k"), bin("-", num((int32_t)s.range(-9, 9)), num((int32_t)s.range(-9, 9))), nil(), num(-1), flt(0.0f), str(""), T});
                Block body; if (s.chance(5, 6)) body.push_back(s.flip() ? ret(r) : ifelse(call(var("isint"), {var("v")}), {ret(bin(s.pickl<std::string>({"-", "+", "*", "&"}), var("v"), num((int32_t)s.range(-9, 9))))}, {ret(r)}));
                p.push_back(logst({call(var("filter"), {T, lam2("k", "v", body)})})); break; }
              p.push_back(logst({call(var("filter"), {T, lam2("k", "v", {ifst(call(var("isint"), {var("v")}), {ret(cmp(">", var("v"), num((int32_t)s.range(-20, 20))))}), ret(s.flip() ? call(var("isstring"), {var("k")}) : (s.flip() ? (E)num(0) : (E)var("v")))})})})); break;
      case 6: { auto f = std::make_shared<Fn>(); f->params = {"k", "v", "acc"}; f->body = {ifelse(call(var("isint"), {var("v")}), {ret(bin("+", var("acc"), var("v")))}, {ret(bin("+", var("acc"), num(1)))})}; p.push_back(logst({call(var("reduce"), {T, lam(f), num((int32_t)s.range(-5, 5))})})); break; }
      case 7: { std::string u = s.pick(tabs); p.push_back(assign(var(u), s.flip() ? (E)T : (E)mk(TAB))); break; }   // aliasing or a fresh table
      case 8: { E k = rkey(s); p.push_back(assign(idx(T, k), nil())); break; }
      default: { E e = mk(TAB); size_t m = s.draw(6); for (size_t j = 0; j < m; ++j) { e->keys.push_back(s.flip() ? (E)str(s.pickl<std::string>({"a", "b", "c", "key"})) : s.chance(1, 4) ? (E)flt(s.pickl<float>({0.5f, 1.5f})) : (E)num((int32_t)s.range(0, 9))); e->a.push_back(s.chance(1, 5) ? (E)nil() : (E)num((int32_t)s.range(0, 9))); } p.push_back(assign(T, e)); break; }
    }
  }
  for (auto& t : tabs) p.push_back(logst({var(t), call(var("size"), {var(t)})}));
  for (auto& t : tabs) for (auto& u : tabs) p.push_back(logst({cmp("==", var(t), var(u))}));
  diffrun(p, s, c);
  c.nontrivial = n > 10;
}
// float keys that are next to each other, next to zero or at the ends of the range, written as constants and computed
static void closekeys(Src& s, Ctx& c) {
  Block p; p.push_back(assign(var("t"), mk(TAB))); size_t n = 2 + s.draw(8); std::vector<E> ks; std::vector<float> fs; for (size_t i = 0; i < n; ++i) { float f; if (i && s.chance(2, 3)) { f = s.pick(fs); int k = 1 + (int)s.draw(3); switch (s.draw(4)) { case 0: for (int j = 0; j < k; ++j) f = std::nextafterf(f, s.flip() ? INFINITY : -INFINITY); break; case 1: f = -f; break; case 2: f = f * (float)(1 + k); break; default: f = std::ldexp(f, -k); } if (!std::isfinite(f)) f = 2.5f; } else f = edgeflt(s); fs.push_back(f); ks.push_back(s.chance(1, 4) ? (E)bin("*", flt(std::ldexp(1.0f, (int)s.range(-3, 3))), flt(f)) : (E)flt(f)); }
  for (size_t i = 0; i < n; ++i) { p.push_back(assign(idx(var("t"), ks[i]), num((int32_t)i))); if (s.chance(1, 5)) p.push_back(assign(idx(var("t"), s.pick(ks)), nil())); }
  p.push_back(logst({call(var("size"), {var("t")}), var("t")})); for (auto& k : ks) p.push_back(logst({idx(var("t"), k)}));
  for (size_t i = 0; i < n; ++i) p.push_back(logst({cmp("==", s.pick(ks), s.pick(ks)), cmp("<", s.pick(ks), s.pick(ks)), cmp(">=", s.pick(ks), s.pick(ks))}));
  diffrun(p, s, c); c.nontrivial = true;
}
// a whole float and the int equal to it are the same key, at any magnitude
static void twinkeys(Src& s, Ctx& c) {
  std::vector<int32_t> v; size_t n = 1 + s.draw(5); for (size_t i = 0; i < n; ++i) { int32_t x = (int32_t)(s.flip() ? s.range(0, 300) : s.range(0, 16777216)); if (s.flip()) { while (x < (1 << 22)) x = x * 2 + (s.chance(1, 3) ? 1 : 0) + 2; x = (x & 0xffffff) << s.draw(8); if (x < 0) x = 1 << 30; } if (x == INT32_MIN) x = 5; v.push_back(s.flip() ? -x : x); }
  auto key = [&](int32_t x) -> E { switch (s.draw(4)) { case 0: return flt((float)x); case 1: return bin("*", flt((float)x * 0.5f), num(2)); case 2: return bin("+", num(x), num(0)); default: return num(x); } };
  Block p; p.push_back(assign(var("t"), mk(TAB))); size_t m = 3 + s.draw(12);
  for (size_t i = 0; i < m; ++i) { int32_t x = s.pick(v); switch (s.draw(4)) { case 0: case 1: p.push_back(assign(idx(var("t"), key(x)), num((int32_t)i))); break; case 2: p.push_back(assign(idx(var("t"), key(x)), nil())); break; default: p.push_back(logst({idx(var("t"), key(x)), cmp("==", key(x), key(x)), call(var("size"), {var("t")})})); } }
  for (auto x : v) p.push_back(logst({idx(var("t"), flt((float)x)), idx(var("t"), num(x))})); p.push_back(logst({call(var("size"), {var("t")})}));
  diffrun(p, s, c); c.nontrivial = true;
}
// many keys built by loops, partially erased, then queried; bigger sizes than hand-written tests use
static void bulk(Src& s, Ctx& c) {
  Block p; p.push_back(assign(var("t"), mk(TAB)));
  size_t ph = 1 + s.draw(5); int hi = 0;
  for (size_t i = 0; i < ph; ++i) {
    int from = (int)s.range(-60, 60), cnt = (int)s.range(0, 150), step = (int)s.range(1, 11), mul = (int)s.pickl<int>({1, 1, 2, 10, -3});
    int to = from + cnt; hi = std::max(hi, to);
    E k = bin("*", var("i"), num(mul)); if (s.chance(1, 5)) k = bin("+", bin("*", var("i"), flt(0.5f)), flt(0.25f));
    E v = s.chance(2, 5) ? (E)nil() : s.flip() ? (E)bin("+", var("i"), num((int32_t)s.range(0, 3))) : (E)str("z");
    p.push_back(forst(assign(var("i"), num(from)), cmp("<", var("i"), num(to)), assign(var("i"), bin("+", var("i"), num(step))), {assign(idx(var("t"), k), v)}));
    p.push_back(logst({call(var("size"), {var("t")})}));
  }
  p.push_back(assign(var("n"), num(0)));
  p.push_back(callst(call(var("foreach"), {var("t"), lam2("k", "v", {assign(var("n"), bin("+", var("n"), num(1)))})})));
  p.push_back(logst({var("n"), var("t")}));
  for (int i = 0; i < 6; ++i) { E k = num((int32_t)s.range(-70, hi + 5)); p.push_back(logst({idx(var("t"), k)})); }
  diffrun(p, s, c); c.nontrivial = true;
}
// thousands of entries: nothing about a table depends on how many entries it has
static void large(Src& s, Ctx& c) {
  int n = (int)s.range(500, s.flip() ? 5000 : 1500), mul = s.pickl<int>({1, 1, 2, 10, -10, 20}), off = (int)s.range(-40, 40); E k = bin("+", bin("*", var("i"), num(mul)), num(off));
  Block p = {assign(var("t"), mk(TAB)), forst(assign(var("i"), num(0)), cmp("<", var("i"), num(n)), assign(var("i"), bin("+", var("i"), num(1))), {assign(idx(var("t"), k), var("i"))})};
  auto red = std::make_shared<Fn>(); red->params = {"k", "v", "acc"}; red->body = {ret(bin("+", var("acc"), bin("%", var("v"), num(97))))};
  auto look = [&](const char* t) { E T = var(t); p.push_back(logst({call(var("size"), {T}), call(var("reduce"), {T, lam(red), num(0)})})); p.push_back(assign(var("n"), num(0))); p.push_back(assign(var("x"), num(0)));
    p.push_back(callst(call(var("foreach"), {T, lam2("k", "v", {assign(var("n"), bin("+", var("n"), num(1))), assign(var("x"), bin("^", num(1), num(1))), assign(var("y"), bin("%", bin("+", bin("+", var("y"), var("k")), bin("*", num(3), var("v"))), num(1000003)))})}))); p.push_back(logst({var("n"), var("y")}));
    for (int i = 0; i < 4; ++i) p.push_back(logst({idx(T, num((int32_t)(s.range(-3, n + 3) * mul + off)))})); };
  p.push_back(assign(var("y"), num(0))); look("t");
  int m = (int)s.range(2, 9);
  switch (s.draw(4)) {
    case 0: p.push_back(assign(var("u"), call(var("map"), {var("t"), lam2("k", "v", {ret(bin("+", var("v"), num(m)))})}))); look("u"); break;
    case 1: p.push_back(assign(var("u"), call(var("filter"), {var("t"), lam2("k", "v", {ret(bin("%", var("v"), num(m)))})}))); look("u"); break;
    case 2: p.push_back(assign(var("u"), call(var("clone"), {var("t")}))); p.push_back(assign(idx(var("u"), num(off)), num(-5))); look("u"); break;
    default: p.push_back(forst(assign(var("i"), num(0)), cmp("<", var("i"), num(n)), assign(var("i"), bin("+", var("i"), num(m))), {assign(idx(var("t"), k), nil())})); break;
  }
  look("t"); RunOpts o; o.maxsteps = 30000000; diffrun(p, s, c, o); c.nontrivial = true; c.cls("entries", n);
}
// clone(): deep, independent copy
static void cloning(Src& s, Ctx& c) {
  Block p; std::function<E(int)> lit = [&](int d) { E e = mk(TAB); size_t n = s.draw(5); for (size_t i = 0; i < n; ++i) { e->keys.push_back(s.flip() ? (E)str(s.pickl<std::string>({"a", "b", "c"})) : (E)num((int32_t)s.range(0, 12))); e->a.push_back(d > 0 && s.flip() ? lit(d - 1) : s.chance(1, 4) ? (E)str("s") : s.chance(1, 4) ? (E)flt(2.5f) : (E)num((int32_t)s.range(0, 9))); } return e; };
  p.push_back(assign(var("o"), lit(3)));
  p.push_back(assign(var("d"), call(var("clone"), {var("o")})));
  p.push_back(logst({var("o"), var("d"), cmp("==", var("o"), var("d"))}));
  size_t n = 1 + s.draw(8);
  for (size_t i = 0; i < n; ++i) {
    E b = var(s.flip() ? "o" : "d"); E k = s.flip() ? (E)str(s.pickl<std::string>({"a", "b", "c"})) : (E)num((int32_t)s.range(0, 12));
    if (s.flip()) { p.push_back(ifst(call(var("istable"), {idx(b, k)}), {assign(idx(idx(b, k), str("a")), num((int32_t)s.range(100, 120)))})); }
    else p.push_back(assign(idx(b, k), s.flip() ? (E)num(77) : (E)nil()));
    p.push_back(logst({var("o"), var("d")}));
    if (s.chance(1, 6)) p.push_back(assign(var("d"), call(var("clone"), {var("d")})));
  }
  for (E x : {(E)num(5), (E)flt(1.5f), (E)str("q"), (E)nil()}) p.push_back(logst({call(var("clone"), {x})}));
  diffrun(p, s, c); c.nontrivial = true;
}
// callbacks that assign to, remove from and add to the table being iterated over
static void changing(Src& s, Ctx& c) {
  iter::Plan pl = iter::plan(s, true); int op = (int)s.draw(4); bool gc = s.chance(1, 2); std::string src = "t = {}\n"; for (auto& x : pl.init) src += "t[" + bz::S(x.first) + "] = " + bz::S(x.second) + "\n";
  bool wipe = s.flip(); std::string pre = op == 1 ? " var w = v * 2\n" : op == 2 ? " var w = v % 2\n" : " var w = v + 0\n", wiped = wipe ? " k = nil v = nil\n" : "";
  std::string body = pre + " log(\"@\", k, v)\n" + pl.script([](int k, int v) { return "t[" + bz::S(k) + "] = " + bz::S(v); }, [](int k) { return "t[" + bz::S(k) + "] = nil"; });
  switch (op) {
    case 0: src += "foreach(t, function(k, v) {" + body + wiped + "})\nr = 0\n"; break;
    case 1: src += "r = map(t, function(k, v) {" + body + wiped + " return w })\n"; break;
    case 2: src += "r = filter(t, function(k, v) {" + body + wiped + " return w })\n"; break;
    default: src += "r = reduce(t, function(k, v, a) {" + body + wiped + " return a + w }, 7)\n"; break;
  }
  src += "log(\"r\", r)\nlog(\"t\", t)\n"; c.note(src);
  bz::Compiled cc; bz::compile(src, cc); if (!cc.assembled) fail("a valid program was rejected by the compiler"); bz::VM vm(1); if (!vm.load(cc.bcode)) fail("loading failed: " + vm.err());
  uint64_t st = 0; while (vm.vm->state == BUZZVM_STATE_READY) { if (++st > 1000000) fail("the program does not end"); if (gc) vm.vm->heap->max_objs = 0; buzzvm_step(vm.vm); }
  if (vm.vm->state != BUZZVM_STATE_DONE) fail("the program stopped: " + vm.err()); iter::Watch w(pl); iter::follow(vm.trace, w);
  std::map<int, int> res; int acc = 7; for (auto& l : vm.trace) { int k, v; if (sscanf(l.c_str(), "s:'@' i:%d i:%d", &k, &v) == 2) { acc += v; if (op == 1) res[k] = v * 2; if (op == 2) { if (v % 2) res[k] = v; } } }
  std::string r = op == 0 ? "i:0" : op == 3 ? "i:" + bz::S(acc) : iter::table(res); if (vm.trace.size() < 2 || vm.trace[vm.trace.size() - 2] != "s:'r' " + r) fail("the result is " + vm.trace[vm.trace.size() - 2] + " instead of " + r);
  if (vm.trace.back() != "s:'t' " + iter::table(w.cur)) fail("the table ends up as " + vm.trace.back() + " instead of " + iter::table(w.cur)); c.cls("operation " + bz::S(op)); c.cls("changes", w.changes); c.nontrivial = w.changes > 1;
}
// tables that contain themselves: a clone has the same shape and shares nothing with the original
static void cycles(Src& s, Ctx& c) {
  // a graph of n tables: edge (i, name) -> j, leaf values
  size_t n = 1 + s.draw(5); std::vector<std::string> nm = {"a", "b", "c", "d"}; std::vector<std::map<std::string, size_t>> g(n); std::string src; for (size_t i = 0; i < n; ++i) src += "t" + bz::S(i) + " = {.v=" + bz::S(100 + i) + "}\n";
  size_t m = 1 + s.draw(2 * n + 2); for (size_t i = 0; i < m; ++i) { size_t from = s.draw(n), to = s.draw(n); std::string e = s.pick(nm); g[from][e] = to; }
  for (size_t i = 0; i < n; ++i) for (auto& e : g[i]) src += "t" + bz::S(i) + "." + e.first + " = t" + bz::S(e.second) + "\n";
  src += "d = clone(t0)\nlog(\"first\", d == t0)\n"; 
  // changes made through the clone after it was taken must not show in the original, nor the other way round; walks of both report v
  std::vector<std::string> exp = {"s:'first' i:0"}; size_t walks = 1 + s.draw(8);
  for (size_t w = 0; w < walks; ++w) {
    size_t at = 0; std::string path; std::set<size_t> on = {0}; size_t len = s.draw(6);
    for (size_t i = 0; i < len && !g[at].empty(); ++i) { auto it = std::next(g[at].begin(), s.draw(g[at].size())); path += "." + it->first; at = it->second; if (on.count(at)) c.cls("through a cycle"); on.insert(at); }
    src += "log(\"walk\", d" + path + ".v, t0" + path + ".v, d" + path + " == t0" + path + ")\n"; exp.push_back("s:'walk' i:" + bz::S(100 + at) + " i:" + bz::S(100 + at) + " i:0");
  }
  // an edge back to a table on the path leads to the clone of that table
  std::function<void(size_t, std::string, std::map<size_t, std::string>, int)> loops = [&](size_t at, std::string path, std::map<size_t, std::string> on, int d) { on[at] = path; for (auto& e : g[at]) { if (on.count(e.second)) { src += "log(\"loop\", d" + path + "." + e.first + " == d" + on[e.second] + ")\n"; exp.push_back("s:'loop' i:1"); c.cls("cycles"); } else if (d > 0 && exp.size() < 40) loops(e.second, path + "." + e.first, on, d - 1); } }; loops(0, "", {}, 4);
  src += "d.v = -1\nlog(\"orig\", t0.v)\nt0.w = 5\nlog(\"copy\", d.w)\n"; exp.push_back("s:'orig' i:100"); exp.push_back("s:'copy' nil");
  c.note(src); bool gc = s.flip(); bz::Compiled cc; bz::compile(src, cc); if (!cc.assembled) fail("a valid program was rejected by the compiler"); bz::VM vm(1); if (!vm.load(cc.bcode)) fail("loading failed: " + vm.err());
  uint64_t st = 0; while (vm.vm->state == BUZZVM_STATE_READY) { if (++st > 1000000) fail("the program does not end"); if (gc) vm.vm->heap->max_objs = 0; buzzvm_step(vm.vm); }
  if (vm.vm->state != BUZZVM_STATE_DONE) fail("the program stopped: " + vm.err()); if (vm.trace != exp) fail(bz::trace_diff(exp, vm.trace)); c.nontrivial = exp.size() > 4;
}
// invalid keys / non-table receivers / wrong callbacks stop the program
static void misuse(Src& s, Ctx& c) {
  Block p; p.push_back(assign(var("t"), mk(TAB))); p.push_back(assign(var("u"), mk(TAB)));
  auto fd = std::make_shared<Fn>(); fd->name = "fn"; fd->params = {"x"}; fd->body = {ret(var("x"))}; p.push_back(fundef(fd));
  size_t pre = s.draw(5); for (size_t i = 0; i < pre; ++i) { p.push_back(assign(idx(var("t"), rkey(s)), num((int32_t)s.range(0, 9)))); }
  p.push_back(logst({var("t")}));
  E bad = s.pickl<E>({nil(), var("u"), var("fn"), var("undefinedname")});
  E notab = s.pickl<E>({nil(), num(3), flt(1.5f), str("s"), var("fn")});
  p.push_back(assign(var("nt"), notab));
  switch (s.draw(8)) {
    case 0: p.push_back(assign(idx(var("t"), bad), s.pickl<E>({num(1), nil(), flt(0.5f), str("v"), var("t"), var("fn"), var("neverset")}))); break;
    case 1: p.push_back(logst({idx(var("t"), bad)})); break;
    case 2: p.push_back(assign(idx(var("nt"), rkey(s)), s.pickl<E>({num(1), nil(), str("v"), var("fn")}))); break;
    case 3: p.push_back(logst({dot(var("nt"), "x")})); break;
    case 4: p.push_back(logst({call(var("size"), {var("nt")})})); break;
    case 5: p.push_back(callst(call(var(s.pickl<std::string>({"foreach", "map", "filter"})), {var("nt"), var("fn")}))); break;
    case 6: p.push_back(callst(call(var(s.pickl<std::string>({"foreach", "map", "filter"})), {var("t"), var("u")}))); break;
    default: p.push_back(assign(var("r"), call(var("map"), {var("t"), lam2("k", "v", {ret(bin("+", var("v"), var("u")))})}))); break;
  }
  p.push_back(logst({str("survived")}));
  diffrun(p, s, c); c.nontrivial = true;
}
// clones of functions, alone and in tables, script and built-in ones, with and without captured variables, are the same functions
static void functions(Src& s, Ctx& c) {
  int k = (int)s.range(-50, 50); std::string src = bz::fmt("function mk(a) { return function(x) { return x + a } }\nfunction sq(x) { return x * x }\nt = { .0 = math.abs, .1 = mk(%d), .2 = sq, .3 = { .m = math.max, .l = string.length, .f = mk(%d) } }\nd = clone(t)\ne = clone(d)\na = clone(math.abs)\nb = clone(mk(%d))\n", k, k + 1, k + 2); if (s.flip()) src += "t = nil\n"; bool gc = s.flip(); bz::Trace e; size_t n = 1 + s.draw(8);
  for (size_t i = 0; i < n; ++i) { int x = (int)s.range(-99, 99), y = (int)s.range(-99, 99); std::string d = s.flip() ? "d" : "e"; switch (s.draw(7)) {
    case 0: src += bz::fmt("log(%s[0](%d))\n", d.c_str(), x); e.push_back(bz::fmt("i:%d", std::abs(x))); break; case 1: src += bz::fmt("log(%s[1](%d))\n", d.c_str(), x); e.push_back(bz::fmt("i:%d", x + k)); break; case 2: src += bz::fmt("log(%s[2](%d))\n", d.c_str(), x); e.push_back(bz::fmt("i:%d", x * x)); break;
    case 3: src += bz::fmt("log(%s[3].m(%d, %d))\n", d.c_str(), x, y); e.push_back(bz::fmt("i:%d", std::max(x, y))); break; case 4: src += bz::fmt("log(%s[3].l(\"%d\"), %s[3].f(%d))\n", d.c_str(), x, d.c_str(), y); e.push_back(bz::fmt("i:%d i:%d", (int)bz::S(x).size(), y + k + 1)); break; case 5: src += bz::fmt("log(a(%d))\n", x); e.push_back(bz::fmt("i:%d", std::abs(x))); break; default: src += bz::fmt("log(b(%d))\n", x); e.push_back(bz::fmt("i:%d", x + k + 2)); } }
  c.note(src); bz::Compiled cc; bz::compile(src, cc); if (!cc.assembled) fail("a valid program was rejected by the compiler"); bz::VM vm(1); if (!vm.load(cc.bcode)) fail("load"); if (gc) vm.vm->heap->max_objs = 0; vm.run(100000); if (vm.vm->state != BUZZVM_STATE_DONE) fail("the program stopped: " + vm.err()); if (vm.trace != e) fail(bz::trace_diff(e, vm.trace)); c.nontrivial = n > 1;
}
int main(int argc, char** argv) {
  std::vector<Test> t = {
    {"history", history, 12000, 400000}, {"bulk", bulk, 4000, 80000}, {"large", large, 60, 1500}, {"clone", cloning, 5000, 160000}, {"misuse", misuse, 4000, 60000}, {"changing", changing, 5000, 120000}, {"cycles", cycles, 3000, 60000}, {"close-keys", closekeys, 3000, 60000}, {"twin-keys", twinkeys, 3000, 60000}, {"functions", functions, 800, 30000},
  };
  return run(argc, argv, "P03", t);
}
