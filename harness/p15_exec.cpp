// Swarm-scoped execution: exec, swarm.id, membership tests and set operations inside scripts.
#include "model.hpp"
using namespace ref; using namespace pbt; using namespace net;

struct G {
  Src& s; std::map<int, bool> in; std::vector<int> stack; std::vector<std::string> exp; int depth = 0, uid = 0, nfun = 0; std::string funs; int budget = 60;
  explicit G(Src& x) : s(x) {}
  static std::string id(int n) { return S(n); }
  int rs() { return (int)s.pickl<int>({1, 2, 3, 70}); }
  void log(std::string& o, const std::string& e, const std::string& v) { o += "log(" + e + ")\n"; exp.push_back(v); }
  std::string curid() { return stack.empty() ? "nil" : "i:" + S(stack.back()); }
  // emits statements and simulates them; live=false emits code that is never run
  std::string block(bool live, int d) {
    std::string o; size_t n = 1 + s.draw(4);
    for (size_t i = 0; i < n && budget > 0; ++i) { --budget; o += stmt(live, d); }
    return o;
  }
  void elog(std::string& o, bool live, const std::string& e, const std::string& v) { o += "log(" + e + ")\n"; if (live) exp.push_back(v); }
  std::string stmt(bool live, int d) {
    std::string o; int a = rs(), b = rs(), r = rs();
    switch (s.weighted({3, 2, 2, 2, 4, 3, (unsigned)(d < 5 ? 8 : 0), 2, 2, 1, 1})) {
      case 0: o = "s" + S(a) + ".join()\n"; if (live) in[a] = true; return o;
      case 1: o = "s" + S(a) + ".leave()\n"; if (live) in[a] = false; return o;
      case 2: { int v = (int)s.pickl<int>({0, 1, 2, 256, -1, 0}); o = "s" + S(a) + ".select(" + S(v) + ")\n"; if (live) in[a] = v != 0; return o; }
      case 3: elog(o, live, "s" + S(a) + ".in()", "i:" + S(in[a])); return o;
      case 4: elog(o, live, "swarm.id()", curid()); return o;
      case 5: { int k = (int)s.pickl<int>({1, 2, 3, 4, 0, -1, 100, 65537, -2147483647}); int pos = std::max(1, std::min<int>(k, stack.size())); elog(o, live, "swarm.id(" + S(k) + ")", stack.empty() ? "nil" : "i:" + S(stack[stack.size() - pos])); return o; }
      case 6: {
        bool run = live && in[a]; unsigned form = (unsigned)s.draw(4); std::string body; int tag = uid++;
        if (run) stack.push_back(a);
        if (run) exp.push_back("s:'in" + S(tag) + "'"); body = "log(\"in" + S(tag) + "\")\n"; body += block(run, d + 1);
        bool early = s.chance(1, 5); if (early) { body += s.flip() ? "return\n" : "return 5\n"; }   // leaving early
        if (run) stack.pop_back();
        if (form == 0) { std::string f = "fun" + S(nfun++); funs += "function " + f + "() {\n" + body + "}\n"; o = "s" + S(a) + ".exec(" + f + ")\n"; }
        else if (form == 1) o = "var loc" + S(tag) + " = " + S(tag) + "\ns" + S(a) + ".exec(function() {\n" + body + "})\nlog(loc" + S(tag) + ")\n";
        else o = "s" + S(a) + ".exec(function() {\n" + body + "})\n";
        if (form == 1 && live) exp.push_back("i:" + S(tag));
        elog(o, live, "swarm.id()", curid()); return o; }
      case 7: { if (a == b && a == r) {} int k = (int)s.draw(3); bool x = in[a], y = in[b]; bool res = k == 0 ? x || y : k == 1 ? x && y : x && !y; o = "s" + S(r) + " = swarm." + (k == 0 ? "union" : k == 1 ? "intersection" : "difference") + "(" + S(r) + ", s" + S(a) + ", s" + S(b) + ")\n"; if (live) in[r] = res; elog(o, live, "s" + S(r) + ".in(), s" + S(r) + ".id", "i:" + S(in[r]) + " i:" + S(r)); return o; }
      case 8: { bool res = !in[a]; o = "s" + S(r) + " = s" + S(a) + ".others(" + S(r) + ")\n"; if (live) in[r] = res; elog(o, live, "s" + S(r) + ".in()", "i:" + S(in[r])); return o; }
      case 9: { o = "s" + S(a) + " = swarm.create(" + S(a) + ")\n"; elog(o, live, "s" + S(a) + ".in()", "i:" + S(in[a])); return o; }   // creating again keeps the membership
      default: { // C function executed with the swarm
        o = "s" + S(a) + ".exec(cfun)\n"; if (live && in[a]) exp.push_back("s:'cfun' i:" + S(a)); return o; }
    }
  }
};
static int cfun(buzzvm_t vm) {
  std::string l = "s:'cfun' "; l += buzzdarray_isempty(vm->swarmstack) ? "nil" : "i:" + S(buzzdarray_last(vm->swarmstack, uint16_t));
  auto it = bz::sinks().find(vm); if (it != bz::sinks().end()) it->second->push_back(l);
  return buzzvm_ret0(vm);
}
static void exec(Src& s, Ctx& c) {
  G g(s); for (int i : {1, 2, 3, 70}) g.in[i] = false;
  std::string mainb = g.block(true, 0); size_t m1 = g.exp.size();
  g.budget += 30; std::string stepb = g.block(true, 0); stepb += g.block(true, 0);
  std::string src = "s1 = swarm.create(1)\ns2 = swarm.create(2)\ns3 = swarm.create(3)\ns70 = swarm.create(70)\n" + g.funs + "function init_() {\n" + mainb + "}\nfunction step() {\n" + stepb + "}\n";
  c.note(src); Robot r(4, src); r.w.hook("cfun", cfun); r.hostile = s.chance(1, 4);
  r.call("init_"); if (!buzzdarray_isempty(r.vm()->swarmstack)) fail("the swarm context was not left");
  r.call("step"); if (!buzzdarray_isempty(r.vm()->swarmstack)) fail("the swarm context was not left");
  if (r.w.trace != g.exp) fail("swarm-scoped execution differs: " + bz::trace_diff(g.exp, r.w.trace));
  for (auto& kv : g.in) { uint16_t id = kv.first; const uint8_t* x = (const uint8_t*)buzzdict_rawget(r.vm()->swarms, &id); if (!x || (bool)*x != kv.second) fail("membership of swarm " + S(kv.first) + " is wrong"); }
  c.cls("log lines", g.exp.size()); c.nontrivial = g.exp.size() > 5; (void)m1;
}
// wrong uses stop the script with an error
static void misuse(Src& s, Ctx& c) {
  static const std::vector<std::string> bad = {"swarm.create(\"x\")", "swarm.create(1.5)", "swarm.create(nil)", "swarm.create()", "swarm.create(1,2)", "s.exec(5)", "s.exec()", "s.exec(nil)", "s.select(\"a\")", "s.select(nil)", "s.select()", "s.join(1)", "s.leave(2)", "s.in(1)", "s.others()", "s.others(\"a\")", "swarm.union(5, s)", "swarm.union(5, s, 3)", "swarm.union(5, nil, s)", "swarm.union(\"a\", s, s)", "swarm.intersection(5, {}, s)", "swarm.difference(5, s, {.id=\"x\"})", "swarm.id(\"a\")", "s.exec(function() { swarm.id(\"b\") })", "s.exec(function() { log(1 + nil) })"};
  std::string b = s.pick(bad); bool inexec = s.chance(1, 3); std::string src = "s = swarm.create(1)\ns.join()\nt = swarm.create(2)\nt.join()\n"; 
  if (b == "swarm.id(\"a\")") inexec = true;
  src += inexec ? "function go() { log(1) t.exec(function() { log(2) " + b + " log(3) }) log(4) }\n" : "function go() { log(1) " + b + " log(4) }\n"; c.note(src);
  Robot r(4, src); r.hostile = s.flip(); std::string g = r.callraw("go", {}, true);
  if (g.compare(0, 6, "error:") != 0) fail("a wrong use of swarms did not stop the script");
  std::vector<std::string> e = {"i:1"}; if (inexec) e.push_back("i:2"); if (r.w.trace != e) fail("a wrong use of swarms: " + bz::trace_diff(e, r.w.trace));
  if (!r.vm()->errormsg || !*r.vm()->errormsg) fail("no error message"); c.nontrivial = true;
}
int main(int argc, char** argv) {
  std::vector<Test> t = { {"exec", exec, 9000, 200000}, {"misuse", misuse, 1500, 20000} };
  return run(argc, argv, "P15", t);
}
