// Virtual stigmergy on one robot: reads, writes, deletions, versions, conflict managers.
#include "model.hpp"
#include "iter.hpp"
using namespace ref; using namespace pbt; using namespace net;

static Val rkey(Src& s, bool wide) {
  if (wide && s.chance(1, 8)) return Val();
  if (wide) switch (s.draw(3)) { case 0: return vi((int32_t)s.pickl<int>({0, 1, 2, 9, 10, 11, 12, 20, -1, -10, 100, 65536, 2147483647})); case 1: return vs(s.pickl<std::string>({"", "k", "l", "1", "10", "key with spaces", "id", "data", "robot"})); default: return vf(s.pickl<float>({0.5f, -0.5f, 1.5f, -1.5f, 10.25f, 1e10f})); }
  switch (s.draw(3)) { case 0: return vi((int32_t)s.draw(3)); case 1: return vs(s.pickl<std::string>({"k", "1"})); default: return vf(0.5f); }
}
static void history(Src& s, Ctx& c) {
  uint16_t me = (uint16_t)s.pickl<int>({1, 5, 300, 65535}); Pair p(me); p.r.hostile = s.chance(1, 4); bool wide = s.flip();
  std::vector<uint16_t> sg = {(uint16_t)1, (uint16_t)s.pickl<int>({2, 0, 65535, 11})};
  for (auto i : sg) { Policy q = (Policy)s.draw(PNPOL); bool lost = s.flip(); c.note(fmt("create %u policy %d lost %d", i, q, lost)); p.create(i, q, lost); }
  size_t n = 5 + s.len(60), conf = 0;
  for (size_t i = 0; i < n; ++i) {
    uint16_t g = s.pick(sg);
    switch (s.weighted({6, 4, 2, 8, 2, 1})) {
      case 0: { Val k = rkey(s, wide), v = s.chance(1, 4) ? Val() : rvalue(s, 2); c.note("put " + S(g) + " " + show(k) + " " + show(v)); p.put(g, k, v); break; }
      case 1: { Val k = rkey(s, wide); c.note("get " + S(g) + " " + show(k)); p.get(g, k); break; }
      case 2: c.note("check " + S(g)); p.checkstig(g); break;
      case 3: {
        size_t k = 1 + s.draw(3); std::vector<Bytes> ms; size_t e0 = p.m.events.size();
        for (size_t j = 0; j < k; ++j) {
          MMsg m; m.type = s.flip() ? BUZZMSG_VSTIG_PUT : BUZZMSG_VSTIG_QUERY; m.id = s.chance(1, 10) ? 77 : s.pick(sg); m.key = rkey(s, wide); auto& mm = p.m.vs[s.pick(sg)].m; (void)mm;
          auto it = p.m.vs.count(m.id) ? p.m.vs[m.id].m.find(keystr(m.key)) : p.m.vs.begin()->second.m.end(); uint16_t cur = 0; if (p.m.vs.count(m.id) && it != p.m.vs[m.id].m.end()) cur = it->second.e.ts;
          m.e.ts = (uint16_t)std::min(64000, std::max<int>(0, cur + (int)s.pickl<int>({0, 0, 0, 0, 0, 0, -1, -1, 1, 1, 2, 2, -2, 7, 255, 256, -256, 1000, 32767, 32769, -32769, 40000, -40000}))); if (s.chance(1, 30)) m.e.ts = 65535; if (s.chance(1, 12)) m.e.ts = 0;
          m.e.robot = s.chance(1, 6) ? me : (uint16_t)s.pickl<int>({0, 2, 4, 8, 400, 65534, 256, 258, 257, 261}); m.e.data = m.e.ts == 0 || s.chance(1, 5) ? Val() : s.flip() ? vi((int32_t)s.draw(10)) : rvalue(s, 2);
          // a version is identified by its timestamp and robot: the same version always carries the same data
          if (p.m.vs.count(m.id) && it != p.m.vs[m.id].m.end() && it->second.e.ts == m.e.ts && it->second.e.robot == m.e.robot) m.e.data = it->second.e.data;
          c.note("recv " + m.str()); ms.push_back(encode(m)); if (m.type == BUZZMSG_VSTIG_PUT && m.e.ts == 65535) { /* timestamps never wrap in the histories considered */ }
        }
        p.deliver((uint16_t)s.pickl<int>({8, 4}), ms); conf += p.m.events.size() - e0; break; }
      case 4: { size_t k = 1 + s.draw(5); Bytes b; for (size_t j = 0; j < k; ++j) if (p.pop(b)) c.note("sent " + decode(b).str()); break; }
      default: { Policy q = (Policy)(1 + s.draw(PNPOL - 1)); bool lost = s.flip(); c.note(fmt("policy %u := %d lost %d", g, q, lost)); p.r.call("setpol", {vi(g), vi(q), vi(lost)}); p.m.vs[g].pol = q; if (lost) p.m.vs[g].lost = true; break; }
    }
    p.events();
    // avoid wrapping timestamps
    for (auto& x : p.m.vs) for (auto& y : x.second.m) if (y.second.e.ts >= 65000) { for (auto gg : sg) p.checkstig(gg); c.cls("huge timestamp"); c.nontrivial = true; return; }
  }
  for (auto g : sg) p.checkstig(g); Bytes b; while (p.pop(b)) c.note("sent " + decode(b).str());
  for (auto g : sg) p.checkstig(g);
  c.cls("conflict handler calls", conf); c.nontrivial = n > 10;
}
// conflict managers that use the stigmergy themselves, fail, or return odd values
static void handlers(Src& s, Ctx& c) {
  static const char* HS =
    "log2 = 0\nv = stigmergy.create(1)\nlost = 0\ncalls = 0\nlastk = nil\n"
    "function h(n) {\n"
    " if(n == 0) { v.onconflict(function(k, l, r) { calls = calls + 1 lastk = k v.put(\"side\", calls) return l }) }\n"
    " if(n == 1) { v.onconflict(function(k, l, r) { calls = calls + 1 lastk = v.get(k) return r }) }\n"
    " if(n == 2) { v.onconflict(function(k, l, r) { calls = calls + 1 l.data = 99 l.robot = 3 return l }) }\n"
    " if(n == 3) { v.onconflict(function(k, l, r) { calls = calls + 1 }) }\n"
    " if(n == 4) { v.onconflict(function(k, l, r) { calls = calls + 1 return {.data=5} }) }\n"
    " if(n == 5) { v.onconflict(function(k, l, r) { calls = calls + 1 return {.robot=\"x\",.data=5} }) }\n"
    " if(n == 6) { v.onconflict(function(k, l, r) { calls = calls + 1 var t = {.robot=7,.data={.m=l.data,.n=r.data}} k = nil l = nil r = nil return t }) }\n"
    " if(n == 7) { v.onconflict(function(k, l, r) { calls = calls + 1 v.foreach(function(kk, x, rr) { log2 = log2 + 1 }) var t = {} t.robot = r.robot t.data = string.concat(\"a\", \"b\") k = nil return t }) }\n"
    " if(n == 8) { v.onconflict(function(k, l, r) { calls = calls + 1 v.put(k, 70 + calls) return r }) }\n"
    " if(n == 9) { v.onconflict(function(k, l, r) { calls = calls + 1 v.put(k, nil) v.put(k, 80 + calls) return l }) }\n"
    "}\n"
    "function hl2() { v.onconflictlost(function(k, l) { lost = lost + 1 v.put(k, l.data) }) }\n"
    "function hl() { v.onconflictlost(function(k, l) { lost = lost + 1 k = nil l = nil v.put(\"lost\", lost) }) }\n"
    "function put(k, x) { v.put(k, x) }\nfunction get(k) { return v.get(k) }\nfunction calls_() { return calls }\nfunction lost_() { return lost }\n"
    "function all() { t = {} v.foreach(function(k, x, r) { t[k] = {.x=x,.r=r} }) return t }\n";
  Robot r(5, HS); r.hostile = s.flip(); int h = (int)s.draw(10); bool hl = s.flip(), hl2 = hl && s.flip(); r.call("h", {vi(h)}); if (hl) r.call(hl2 ? "hl2" : "hl"); c.note(fmt("handler %d lost %d", h, hl + hl2));
  Val loc = vi((int32_t)s.range(1, 9)); int ts = 1; uint16_t owner = 5; Val cur = loc; int calls = 0, lost = 0, side = 0; r.call("put", {vs("k"), loc}); r.drain();
  size_t n = 1 + s.draw(6); size_t base = buzzdarray_size(r.vm()->stack);
  for (size_t i = 0; i < n; ++i) {
    if (s.chance(1, 4)) { cur = vi((int32_t)s.range(10, 19)); r.call("put", {vs("k"), cur}); owner = 5; ++ts; r.drain(); }
    MMsg m; m.type = s.flip() ? BUZZMSG_VSTIG_PUT : BUZZMSG_VSTIG_QUERY; m.id = 1; m.key = vs("k"); m.e.ts = ts; do { m.e.robot = (uint16_t)s.pickl<int>({2, 6, 7, 8, 3}); } while (m.e.robot == owner && s.chance(9, 10)); m.e.data = vi((int32_t)s.range(50, 59));
    if (m.e.robot == owner) m.e.data = cur; c.note("recv " + m.str());
    r.receive(9, encode(m)); r.process(); r.check("while resolving a conflict");
    if (buzzdarray_size(r.vm()->stack) != (int64_t)base) fail("resolving a conflict left the stack unbalanced");
    if (m.e.robot != owner) {
      ++calls; uint16_t w = owner; Val d = cur; bool valid = true;
      switch (h) { case 0: ++side; break; case 1: w = m.e.robot; d = m.e.data; break; case 2: w = 3; d = vi(99); break; case 6: w = 7; d = tab({{vs("m"), cur}, {vs("n"), m.e.data}}); break; case 7: w = m.e.robot; d = vs("ab"); break; case 8: w = 5; d = vi(70 + calls); ++ts; break; case 9: w = 5; d = vi(80 + calls); ts += 2; break; default: valid = false; }
      if (valid) { if (hl && w != 5 && owner == 5) { ++lost; if (hl2) { w = 5; d = cur; ++ts; } } owner = w; cur = d; }
      bool sent = false; for (auto& b : r.drain()) { MMsg o = decode(b); if (o.type == BUZZMSG_VSTIG_PUT && keystr(o.key) == "s:'k'") { sent = true; if (show(o.e.data) != show(cur) || o.e.robot != owner || o.e.ts != ts) fail("after a conflict the robot sends " + o.str()); } }
      if (valid && !sent) fail("the outcome of a conflict was not sent to the neighbors"); if (!valid && sent) fail("an invalid conflict manager result was sent");
    } else r.drain();
    Val e = tab({{vs("k"), tab({{vs("x"), cur}, {vs("r"), vi(owner)}})}}); if (side) e.tab->kv.push_back({vs("side"), tab({{vs("x"), vi(side)}, {vs("r"), vi(5)}})}); if (lost && !hl2) e.tab->kv.push_back({vs("lost"), tab({{vs("x"), vi(lost)}, {vs("r"), vi(5)}})});
    std::string g = r.call("all"); if (g != show(e)) fail("stigmergy holds " + g + " instead of " + show(e));
    if (r.call("calls_") != "i:" + S(calls) || r.call("lost_") != "i:" + S(lost)) fail("conflict manager called " + r.call("calls_") + " times, lost manager " + r.call("lost_") + " times; expected " + S(calls) + " and " + S(lost));
    cur = ref::Interp().clone(cur);
  }
  c.cls("handler " + S(h)); c.nontrivial = n > 1;
}
// foreach whose callback writes to and deletes from the stigmergy; deleted entries stay deleted for the others
static void changing(Src& s, Ctx& c) {
  iter::Plan pl = iter::plan(s, true); bool nested = s.chance(1, 5);
  std::string src = "v = stigmergy.create(1)\nfunction fill() {\n"; for (auto& x : pl.init) src += " v.put(" + S(x.first) + ", " + S(x.second) + ")\n"; src += "}\n"
    "function go() { v.foreach(function(k, x, r) {\n log(\"@\", k, x)\n log(\"r\", r)\n" + pl.script([](int k, int x) { return "v.put(" + S(k) + ", " + S(x) + ")"; }, [](int k) { return "v.put(" + S(k) + ", nil)"; }) + (nested ? "v.foreach(function(k, x, r) { log(\"in\", k) })\n" : "") + " }) }\n"
    "function all() { t = {} v.foreach(function(k, x, r) { t[k] = x }) return t }\nfunction size_() { return v.size() }\nfunction get(k) { return v.get(k) }\n"; c.note(src);
  Robot r(5, src); r.hostile = s.flip(); if (r.hostile) c.note("with collections"); r.call("fill"); r.drain(); r.w.trace.clear(); size_t base = buzzdarray_size(r.vm()->stack); r.call("go"); if ((size_t)buzzdarray_size(r.vm()->stack) != base) fail("foreach left the stack unbalanced");
  iter::Watch w(pl); bz::Trace tr; for (auto& l : r.w.trace) { if (l.substr(0, 4) == "s:'r") { if (l != "s:'r' i:5") fail("foreach reports robot " + l); } else if (l.substr(0, 5) != "s:'in") tr.push_back(l); } iter::follow(tr, w);
  std::string g = r.call("all"); if (g != iter::table(w.cur)) fail("the stigmergy holds " + g + " instead of " + iter::table(w.cur));
  r.drain(); for (auto& x : pl.init) { std::string g2 = r.call("get", {vi(x.first)}), e = w.cur.count(x.first) ? "i:" + S(w.cur[x.first]) : "nil"; if (g2 != e) fail("get(" + S(x.first) + ") gives " + g2 + " instead of " + e); }
  c.cls("changes", w.changes); c.nontrivial = w.changes > 1;
}
// a stigmergy created again starts afresh, also when that happens in the function passed to its own foreach or in its conflict managers
static void afresh(Src& s, Ctx& c) {
  size_t n = 1 + s.draw(s.chance(1, 4) ? 40 : 6), at = s.draw(n); int after = (int)s.draw(4), where = (int)s.draw(4); std::string again = "v = stigmergy.create(1)"; for (int i = 0; i < after; ++i) again += " v.put(" + S(s.flip() ? i : 100 + i) + ", " + S(70 + i) + ")";
  std::string src = "cnt = 0 seen = 0\nv = stigmergy.create(1)\nw = stigmergy.create(11)\nfunction fill() {\n w.put(1, 5)\n"; for (size_t i = 0; i < n; ++i) src += " v.put(" + S(i) + ", " + S(i + 10) + ")\n"; src += "}\n"
    "function go() { v.foreach(function(k, x, r) { if(cnt == " + S(at) + ") { " + again + " }\n cnt = cnt + 1 if(x < 70) { seen = seen + 1 } }) }\nfunction again() { " + again + " }\nfunction hc() { v.onconflict(function(k, l, r) { " + again + " return l }) }\nfunction hl() { v.onconflict(function(k, l, r) { return r }) v.onconflictlost(function(k, l) { " + again + " }) }\n"
    "function all() { t = {} v.foreach(function(k, x, r) { t[k] = x }) return t }\nfunction size_() { return v.size() }\nfunction get(k) { return v.get(k) }\nfunction other() { return w.get(1) }\nfunction put(k, x) { v.put(k, x) }\nfunction seen_() { return seen }\n"; c.note(src);
  Robot r(5, src); r.hostile = s.flip(); r.call("fill"); r.drain(); size_t base = buzzdarray_size(r.vm()->stack); bool exact = true; std::map<int, int> want;
  { size_t p = 0; while ((p = again.find("v.put(", p)) != std::string::npos) { int k, x; sscanf(again.c_str() + p, "v.put(%d, %d)", &k, &x); want[k] = x; ++p; } }
  switch (where) {
    case 0: c.note("in foreach"); r.call("go"); if (r.call("seen_") != "i:" + S(at + 1)) fail("foreach visited " + r.call("seen_") + " entries of the old stigmergy instead of " + S(at + 1)); break;
    case 1: c.note("between"); r.call("again"); break;
    default: { c.note(where == 2 ? "in onconflict" : "in onconflictlost"); r.call(where == 2 ? "hc" : "hl"); MMsg m; m.type = s.flip() ? BUZZMSG_VSTIG_PUT : BUZZMSG_VSTIG_QUERY; m.id = 1; m.key = vi((int)s.draw(n)); m.e.ts = 1; m.e.robot = 8; m.e.data = vi(55); r.receive(9, encode(m)); r.process(); r.check("while resolving a conflict"); if (where == 2) exact = false; } // where the result of a conflict over a lost entry goes is left open
  }
  if ((size_t)buzzdarray_size(r.vm()->stack) != base) fail("the stack is left unbalanced");
  if (exact) { std::string g = r.call("all"), e = iter::table(want); if (g != e) fail("the new stigmergy holds " + g + " instead of " + e); if (r.call("size_") != "i:" + S(want.size())) fail("size is " + r.call("size_")); for (size_t i = 0; i < n; ++i) { std::string g2 = r.call("get", {vi((int)i)}), e2 = want.count((int)i) ? "i:" + S(want[(int)i]) : "nil"; if (g2 != e2) fail("get(" + S(i) + ") gives " + g2 + " instead of " + e2); } }
  if (r.call("other") != "i:5") fail("another stigmergy is affected: " + r.call("other"));
  r.call("put", {vi(3), vi(1)}); r.call("put", {vi(3), vi(2)}); if (r.call("get", {vi(3)}) != "i:2") fail("the new stigmergy does not keep what is written");
  c.cls("where " + S(where)); c.nontrivial = n > 1;
}
int main(int argc, char** argv) {
  std::vector<Test> t = { {"history", history, 20000, 400000}, {"handlers", handlers, 6000, 100000}, {"changing", changing, 5000, 100000}, {"afresh", afresh, 3000, 60000} };
  return run(argc, argv, "P13", t);
}
