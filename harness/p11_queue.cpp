// Outgoing queue: priorities, order, coalescing, exactly-once.
#include "model.hpp"
using namespace ref; using namespace pbt; using namespace net;

static const std::vector<std::string> TOP = {"a", "b", "topic"};
static Val rkey(Src& s) { switch (s.draw(3)) { case 0: return vi((int32_t)s.draw(4)); case 1: return vs(s.pickl<std::string>({"k", "l", "1"})); default: return vf(s.pickl<float>({0.5f, -1.5f})); } }
static void queue(Src& s, Ctx& c) {
  Pair p((uint16_t)s.pickl<int>({1, 5, 300, 65535})); p.r.hostile = s.chance(1, 4);
  std::vector<uint16_t> sg = {1, 2, 700}, sw = {1, 2, 3, 256, 257, 65535};
  for (auto i : sg) if (i != 700 || s.flip()) p.create(i, PDEFAULT, false); bool has700 = p.m.vs.count(700);
  for (auto i : sw) p.swarmcreate(i);
  std::map<std::string, Val> lastv; size_t n = 5 + s.len(60), pops = 0;
  for (size_t i = 0; i < n; ++i) {
    uint16_t g = (uint16_t)s.pickl<int>({1, 1, 2, 700}); if (g == 700 && !has700) g = 1;
    switch (s.weighted({3, 5, 3, 4, 2, 2, 6, 1})) {
      case 0: { Val t = vs(s.pick(TOP)), v = rvalue(s, 2); c.note("say " + show(t) + " " + show(v)); p.say(t, v); break; }
      case 1: { Val k = rkey(s), v = s.chance(1, 6) ? Val() : rvalue(s, 1); c.note("put " + S(g) + " " + show(k) + " " + show(v)); p.put(g, k, v); break; }
      case 2: { Val k = rkey(s); c.note("get " + S(g) + " " + show(k)); p.get(g, k); break; }
      case 3: { uint16_t w = s.pick(sw); bool in = s.flip(); c.note(std::string(in ? "join " : "leave ") + S(w)); p.setswarm(w, in, s.chance(1, 3)); break; }
      case 4: { int k = (int)s.pickl<int>({1, 1, 2, 9, 10}); c.note("outstep x" + S(k)); for (int j = 0; j < k; ++j) p.outstep(); break; }
      case 5: { // incoming versions make the queue replace or keep what it holds
        MMsg m; m.type = s.flip() ? BUZZMSG_VSTIG_PUT : BUZZMSG_VSTIG_QUERY; m.id = (uint16_t)s.pickl<int>({1, 2, 700, 900}); m.key = rkey(s); m.e.ts = s.chance(1, 10) ? (uint16_t)s.pickl<int>({255, 256, 257, 258, 32767, 32768, 40000, 65000}) : (uint16_t)s.draw(5); m.e.robot = (uint16_t)s.pickl<int>({0, 2, 4, 400, 256, 258, 1024, 65280, 65535 - 400}); m.e.data = m.e.ts == 0 || s.chance(1, 5) ? Val() : rscalar(s);
        c.note("recv " + m.str()); p.deliver(8, {encode(m)}); break; }
      case 6: { size_t k = 1 + s.draw(4); for (size_t j = 0; j < k; ++j) { Bytes b; bool pk = s.flip(); if (p.pop(b, pk)) { c.note("sent " + decode(b).str()); ++pops; } } break; }
      default: { Bytes b; while (p.pop(b)) { c.note("sent " + decode(b).str()); ++pops; } break; }
    }
    for (auto& x : p.m.vs) for (auto& y : x.second.m) if (y.second.e.ts > 65400) { c.cls("huge timestamp"); c.nontrivial = pops > 3; return; }   // timestamps never wrap in the histories considered
    if (buzzoutmsg_queue_size(p.r.vm()) != p.m.qsize()) fail("the queue reports " + S(buzzoutmsg_queue_size(p.r.vm())) + " messages instead of " + S(p.m.qsize()));
  }
  Bytes b; while (p.pop(b)) { c.note("sent " + decode(b).str()); ++pops; }
  c.cls("messages sent", pops); c.nontrivial = pops > 3;
}
// long bursts: many messages queued before the first is sent
static void burst(Src& s, Ctx& c) {
  Pair p(9); p.create(1, PDEFAULT, false); for (uint16_t i = 1; i <= 40; ++i) p.swarmcreate(i);
  size_t n = 50 + s.draw(150), pops = 0; unsigned mix = (unsigned)s.draw(4);
  for (size_t i = 0; i < n; ++i) switch (mix == 3 ? s.draw(3) : mix) {
    case 0: p.say(vs("a"), vi((int32_t)i)); break;
    case 1: { Val k = s.flip() ? vi((int32_t)s.draw(60)) : vs("k" + S(s.draw(60))); if (s.chance(1, 4)) p.get(1, k); else p.put(1, k, vi((int32_t)i)); break; }
    default: { p.setswarm((uint16_t)(1 + s.draw(40)), s.flip(), false); if (s.chance(1, 60)) for (int j = 0; j < 10; ++j) p.outstep(); }
  }
  c.note("burst kind " + S(mix) + " of " + S(n)); size_t stop = s.flip() ? 0 : s.draw(20);
  Bytes b; while (p.m.qsize() > stop && p.pop(b)) ++pops;
  size_t again = s.draw(20); for (size_t i = 0; i < again; ++i) { p.put(1, vi((int32_t)s.draw(60)), vi(1000)); p.say(vs("a"), vi(7)); }
  while (p.pop(b)) ++pops;
  c.cls("messages sent", pops); c.nontrivial = true;
}
int main(int argc, char** argv) {
  std::vector<Test> t = { {"queue", queue, 26000, 400000}, {"burst", burst, 3000, 50000} };
  return run(argc, argv, "P11", t);
}
