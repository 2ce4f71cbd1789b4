// The neighbors structure: counting, iterating, transforming, chains, kin and nonkin.
#include "model.hpp"
using namespace ref; using namespace pbt; using namespace net;

struct NS { std::map<int, Val> m; bool has = true; };  // neighbor id -> entry
static Val entry(float d, float a, float e) { return tab({{vs("distance"), vf(d)}, {vs("azimuth"), vf(a)}, {vs("elevation"), vf(e)}}); }
static Val field(const Val& t, const char* n) { if (t.t != VTAB) return Val(); for (auto& p : t.tab->kv) if (p.first.t == VSTR && p.first.s == n) return p.second; return Val(); }

static const char* SRC =
  "acc = {}\nfunction nfe(x) { acc = {} cnt = 0 x.foreach(function(r, d) { cnt = cnt + 1 acc[r] = d }) return {.c=cnt,.a=acc} }\n"
  "function obs(x, q) { return {.f=nfe(x),.c=x.count(),.g=x.get(q),.r=x.reduce(function(r, d, a) { return a + r }, 0),.l=x.reduce(function(r, d, a) { if(not istable(d)) { return a } if(isnil(d.distance)) { return a } else { if(d.distance > a) { return d.distance } else { return a } } }, -1.0)} }\n"
  "function top(q) { return obs(neighbors, q) }\n"
  "function f0(x, t) { return x.filter(function(r, d) { return d.distance > t }) }\n"
  "function f1(x, t) { return x.filter(function(r, d) { return r % 2 }) }\n"
  "function f2(x, t) { return x.filter(function(r, d) { return nil }) }\n"
  "function f3(x, t) { return x.filter(function(r, d) { return \"yes\" }) }\n"
  "function f4(x, t) { return x.filter(function(r, d) { return r - 7 }) }\n"
  "function f5(x, t) { return x.filter(function(r, d) { return d.distance - t }) }\n"
  "function f6(x, t) { return x.filter(function(r, d) { return 0.0 }) }\n"
  "function f7(x, t) { return x.filter(function(r, d) { if(d.distance > t) { return d } }) }\n"
  "function f8(x, t) { return x.filter(function(r, d) { if(d.distance > t) { return {} } else { return 0 } }) }\n"
  "function m0(x, t) { return x.map(function(r, d) { return {.distance=d.distance * 2,.tag=r} }) }\n"
  "function m1(x, t) { return x.map(function(r, d) { return {.distance=d.distance,.azimuth=t} }) }\n"
  "function m2(x, t) { return x.map(function(r, d) { return d }) }\n"
  "function m3(x, t) { return x.map(function(r, d) { return r % 3 }) }\n"
  "function m4(x, t) { return x.map(function(r, d) { if(r % 2 == 0) { return 0.0 } if(r % 3 == 0) { return \"\" } if(r % 5 == 0) { return {} } return \"x\" }) }\n"
  "function kinc(x, t) { var q = nil s1.exec(function() { res = x.kin() }) return res }\n"
  "function nkc(x, t) { s1.exec(function() { res = x.nonkin() }) return res }\n"
  "function kinn(x, t) { s2.exec(function() { s1.exec(function() { res = x.kin() }) }) return res }\n"
  "function kino(x, t) { return x.kin() }\nfunction nko(x, t) { return x.nonkin() }\n"
  "function setup(a, b) { s1 = swarm.create(a) s1.join() s2 = swarm.create(b) s2.join() }\n"
  "cur = neighbors\nfunction restart() { cur = neighbors }\n"
  "function ap(n, t) { if(n == 0) { cur = f0(cur, t) } if(n == 1) { cur = f1(cur, t) } if(n == 2) { cur = f2(cur, t) } if(n == 3) { cur = f3(cur, t) } if(n == 4) { cur = f4(cur, t) } if(n == 5) { cur = m0(cur, t) } if(n == 6) { cur = m1(cur, t) } if(n == 7) { cur = m2(cur, t) } if(n == 8) { cur = kinc(cur, t) } if(n == 9) { cur = nkc(cur, t) } if(n == 10) { cur = kinn(cur, t) } if(n == 11) { cur = kino(cur, t) } if(n == 12) { cur = nko(cur, t) } if(n == 13) { cur = f5(cur, t) } if(n == 14) { cur = f6(cur, t) } if(n == 15) { cur = f7(cur, t) } if(n == 16) { cur = f8(cur, t) } if(n == 17) { cur = m3(cur, t) } if(n == 18) { cur = m4(cur, t) } }\n"
  "function look(q) { return obs(cur, q) }\n"
  "function touch(r) { var d = neighbors.get(r) if(not isnil(d)) { d.mark = r } }\n";
static std::string full(const Val& v) { return show(v); }
static void chain(Src& s, Ctx& c) {
  uint16_t me = 6; Robot r(me, SRC); r.hostile = s.chance(1, 4); Model m(me); NS top; top.has = false; NS cur = top; size_t rounds = 1 + s.draw(3), ops = 0;
  uint16_t S1 = 1, S2 = 2; if (s.chance(1, 3)) { S1 = s.flip() ? s.pickl<uint16_t>({0, 0, 65535, 32768, 255, 256}) : (uint16_t)s.draw(65536); S2 = s.flip() ? (uint16_t)(S1 ^ (1 << s.draw(16))) : (uint16_t)s.draw(65536); if (S1 == S2) S2 = (uint16_t)(S1 + 1); c.note(fmt("swarms %u and %u", S1, S2)); } r.call("setup", {vi(S1), vi(S2)});
  auto obs = [&](const NS& x, int q) {
    Val a = tab({}); int sum = 0; float mx = -1; for (auto& p : x.m) { a.tab->kv.push_back({vi(p.first), p.second}); sum += p.first; Val d = field(p.second, "distance"); if (d.t == VFLT && d.f > mx) mx = d.f; }
    Val t = tab({}); ref::Interp in; in.tput(t, vs("f"), tab({{vs("c"), vi((int32_t)x.m.size())}, {vs("a"), a}})); in.tput(t, vs("c"), vi((int32_t)x.m.size())); in.tput(t, vs("g"), x.m.count(q) ? x.m.at(q) : Val()); in.tput(t, vs("r"), vi(sum)); in.tput(t, vs("l"), vf(mx)); return full(t);
  };
  for (size_t k = 0; k < rounds; ++k) {
    if (s.chance(5, 6)) {
      if (s.chance(4, 5)) { buzzneighbors_reset(r.vm()); top = NS(); c.note("reset"); }
      size_t n = s.draw(12); for (size_t i = 0; i < n; ++i) { int id = (int)(s.flip() ? 1 + s.draw(25) : s.draw(65536)); float d = (float)s.draw(800) / 8, a = (float)s.range(-100, 100) / 32, e = (float)s.range(-40, 40) / 32; buzzneighbors_add(r.vm(), id, d, a, e); top.has = true; top.m[id] = entry(d, a, e); c.note(fmt("add %d %g %g %g", id, d, a, e)); }
      // the engine starts each step with a clean stack
      while (!buzzdarray_isempty(r.vm()->stack)) buzzvm_pop(r.vm());
    }
    size_t nm = s.draw(6); for (size_t i = 0; i < nm && !top.m.empty(); ++i) { auto it = top.m.begin(); std::advance(it, s.draw(top.m.size())); MMsg x; x.type = s.chance(2, 3) ? BUZZMSG_SWARM_JOIN : BUZZMSG_SWARM_LEAVE; x.ids = {s.chance(1, 3) ? S2 : S1}; c.note(S(it->first) + " " + x.str()); r.receive((uint16_t)it->first, encode(x)); r.process(); m.apply((uint16_t)it->first, x); m.age(); }
    int q = top.m.empty() || s.chance(1, 4) ? 9 : std::next(top.m.begin(), s.draw(top.m.size()))->first;
    std::string g = r.call("top", {vi(q)}), e = obs(top, q); if (g != e) fail("neighbors: " + g + " instead of " + e);
    if (s.chance(1, 5) && top.m.count(q)) { r.call("touch", {vi(q)}); ref::Interp in; in.tput(top.m[q], vs("mark"), vi(q)); c.note("touch " + S(q)); }
    r.call("restart"); cur = top; size_t n = s.draw(5);
    for (size_t i = 0; i < n; ++i) {
      int f = (int)s.draw(19); float t = (float)s.draw(400) / 8; NS o; ops++;
      bool dist = true; for (auto& p : cur.m) if (field(p.second, "distance").t != VFLT) dist = false; if (!dist && (f == 0 || f == 5 || f == 6 || (f > 12 && f != 14 && f < 17))) f = 7;
      for (auto& p : cur.m) {
        float d = dist ? field(p.second, "distance").f : 0;
        switch (f) {
          case 0: if (d > t) o.m.insert(p); break; case 1: if (p.first % 2) o.m.insert(p); break; case 2: break; case 3: o.m.insert(p); break; case 4: if (p.first != 7) o.m.insert(p); break;
          case 5: o.m[p.first] = tab({{vs("distance"), vf(d * 2)}, {vs("tag"), vi(p.first)}}); break; case 6: o.m[p.first] = tab({{vs("distance"), vf(d)}, {vs("azimuth"), vf(t)}}); break; case 7: o.m.insert(p); break;
          case 8: case 10: if (m.member(p.first, S1)) o.m.insert(p); break; case 9: if (!m.member(p.first, S1)) o.m.insert(p); break; case 11: o.m.insert(p); break; case 12: break; case 13: case 14: o.m.insert(p); break; case 15: case 16: if (d > t) o.m.insert(p); break;
          case 17: o.m[p.first] = vi(p.first % 3); break; case 18: o.m[p.first] = p.first % 2 == 0 ? vf(0) : p.first % 3 == 0 ? vs("") : p.first % 5 == 0 ? tab({}) : vs("x"); break;
        }
      }
      c.note(fmt("op %d %g", f, t)); r.call("ap", {vi(f), vf(t)}); cur = o;
      int q2 = cur.m.empty() || s.chance(1, 3) ? q : std::next(cur.m.begin(), s.draw(cur.m.size()))->first;
      g = r.call("look", {vi(q2)}); e = obs(cur, q2); if (g != e) fail("after " + S(i + 1) + " transformations: " + g + " instead of " + e);
    }
    // the source is untouched
    g = r.call("top", {vi(q)}); e = obs(top, q); if (g != e) fail("transforming changed the original neighbors: " + g + " instead of " + e);
  }
  c.cls("transformations", ops); c.nontrivial = top.m.size() > 1 && ops > 0;
}
// callbacks that go on using neighbors while they are iterated over: nested iterations, chains, marks on entries
static void nested(Src& s, Ctx& c) {
  std::vector<std::string> inner = {"neighbors.foreach(function(q, e) { n = n + 1 })", "n = n + neighbors.count()", "n = n + neighbors.filter(function(q, e) { return 1 }).count()", "n = n + neighbors.map(function(q, e) { return {.distance=1.0} }).count()", "n = n + neighbors.reduce(function(q, e, a) { return a + 1 }, 0)", "if(not isnil(neighbors.get(r))) { n = n + 1 }", "d.mark = r", "cur = neighbors.filter(function(q, e) { return q - r })\n n = n + cur.count()", "gone = neighbors.filter(function(q, e) { return 0 })\n n = n + gone.count()"};
  size_t k = 1 + s.draw(3); std::string body; std::vector<size_t> pk; for (size_t i = 0; i < k; ++i) { pk.push_back(s.draw(inner.size())); body += " " + inner[pk.back()] + "\n"; } int op = (int)s.draw(4);
  std::string src = "n = 0\nx = 0\ncur = nil\nlist = {}\nfunction go() { n = 0 list = {}\n";
  switch (op) { case 0: src += "neighbors.foreach(function(r, d) { list[r] = d.distance\n" + body + "})\n x = 0 }\n"; break; case 1: src += "x = neighbors.map(function(r, d) { list[r] = d.distance\n" + body + " return {.distance=d.distance + 1} }).count() }\n"; break; case 2: src += "x = neighbors.filter(function(r, d) { list[r] = d.distance\n" + body + " return r % 2 }).count() }\n"; break; default: src += "x = neighbors.reduce(function(r, d, a) { list[r] = d.distance\n" + body + " return a + r }, 3) }\n"; }
  src += "function out() { return {.n=n,.x=x,.l=list} }\nfunction mark(r) { return neighbors.get(r).mark }\n"; c.note(src); Robot r(6, src); r.hostile = s.flip(); if (r.hostile) c.note("with collections");
  std::map<int, float> nb; size_t cnt = s.draw(9); for (size_t i = 0; i < cnt; ++i) { int id = (int)(1 + s.draw(40)); float d = (float)s.draw(800) / 8; nb[id] = d; buzzneighbors_add(r.vm(), id, d, 0, 0); c.note(fmt("add %d %g", id, d)); } while (!buzzdarray_isempty(r.vm()->stack)) buzzvm_pop(r.vm());
  if (nb.empty()) { buzzneighbors_reset(r.vm()); while (!buzzdarray_isempty(r.vm()->stack)) buzzvm_pop(r.vm()); }
  int N = (int)nb.size(), n = 0, x = op == 3 ? 3 : 0; Val l = tab({}); for (auto& p : nb) { l.tab->kv.push_back({vi(p.first), vf(p.second)}); for (auto q : pk) switch (q) { case 0: case 1: case 2: case 3: case 4: n += N; break; case 5: n += 1; break; case 6: break; case 7: n += N - 1; break; default: break; } if (op == 1) ++x; if (op == 2) x += p.first % 2; if (op == 3) x += p.first; }
  for (int round = 0; round < 2; ++round) { r.call("go"); if (!buzzdarray_isempty(r.vm()->stack)) fail("the iteration left the stack unbalanced"); Val e = tab({}); ref::Interp in; in.tput(e, vs("n"), vi(n)); in.tput(e, vs("x"), vi(x)); in.tput(e, vs("l"), l); std::string g = r.call("out"); if (g != show(e)) fail("the iteration gives " + g + " instead of " + show(e)); }
  for (auto q : pk) if (q == 6) { for (auto& p : nb) if (r.call("mark", {vi(p.first)}) != "i:" + S(p.first)) fail("a change made to an entry while iterating is lost"); break; }
  c.nontrivial = N > 1; c.cls("operation " + S(op));
}
// callbacks that take entries away, forget what they were given, or replace everything: the iteration goes on over what it started with
static void vanish(Src& s, Ctx& c) {
  int op = (int)s.draw(4), how = (int)s.draw(4); bool forget = s.flip();
  std::string body = " seen = seen + 1 var i = r + 0 var w = d.distance + 1\n"; switch (how) { case 0: body += " neighbors.poses[r] = nil\n"; break; case 1: body += " neighbors.poses = {}\n"; break; case 2: body += " neighbors.poses = nil\n"; break; default: body += " if(r % 2) { neighbors.poses[r] = {.distance=-5.0} }\n"; }
  if (forget) body += " r = nil d = nil\n"; body += " junk = {.a={},.b=string.concat(\"x\", string.tostring(i))}\n";
  std::string src = "seen = 0\nx = nil\njunk = nil\nfunction go() {\n"; switch (op) { case 0: src += " x = {.poses={}} var y = x.poses neighbors.foreach(function(r, d) {" + body + " y[i] = w }) }\n"; break; case 1: src += " x = neighbors.map(function(r, d) {" + body + " return {.d=w} }) }\n"; break; case 2: src += " x = neighbors.filter(function(r, d) {" + body + " return i % 3 }) }\n"; break; default: src += " x = neighbors.reduce(function(r, d, a) {" + body + " a[i] = w return a }, {}) x = {.poses=x} }\n"; }
  src += "function out() { return {.n=seen,.x=x.poses} }\n"; c.note(src); Robot r(6, src); r.hostile = s.chance(3, 4); if (r.hostile) c.note("with collections");
  std::map<int, float> nb; size_t cnt = 1 + s.draw(9); for (size_t i = 0; i < cnt; ++i) { int id = (int)(1 + s.draw(60)); float d = (float)s.draw(800) / 8; nb[id] = d; buzzneighbors_add(r.vm(), id, d, 0, 0); c.note(fmt("add %d %g", id, d)); } while (!buzzdarray_isempty(r.vm()->stack)) buzzvm_pop(r.vm());
  Val x = tab({}); for (auto& p : nb) { Val v = vf(p.second + 1); if (op == 1) v = tab({{vs("d"), v}}); if (op == 2) { if (p.first % 3 == 0) continue; v = entry(p.second, 0, 0); } x.tab->kv.push_back({vi(p.first), v}); }
  r.call("go"); if (!buzzdarray_isempty(r.vm()->stack)) fail("the iteration left the stack unbalanced"); Val e = tab({}); ref::Interp in; in.tput(e, vs("n"), vi((int)nb.size())); in.tput(e, vs("x"), x); std::string g = r.call("out"); if (g != full(e)) fail("the iteration gives " + g + " instead of " + full(e));
  c.nontrivial = nb.size() > 1; c.cls("operation " + S(op)); c.cls("change " + S(how));
}
int main(int argc, char** argv) {
  std::vector<Test> t = { {"chain", chain, 14000, 250000}, {"nested", nested, 5000, 90000}, {"vanish", vanish, 3000, 60000} };
  return run(argc, argv, "P16", t);
}
