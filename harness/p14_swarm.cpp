// Swarm membership: every robot learns who is in which swarm.
#include "model.hpp"
using namespace ref; using namespace pbt; using namespace net;

static const std::vector<uint16_t> SW = {1, 2, 3, 300, 258, 0, 65535};
static void swarmop(Src& s, Ctx& c, Pair& p) {
  uint16_t a = s.pick(SW), b = s.pick(SW), d = s.pick(SW);
  auto ensure = [&](uint16_t i) { p.swarmcreate(i); };
  switch (s.weighted({5, 5, 2, 2, 2, 1})) {
    case 0: ensure(a); c.note(p.who() + "join " + S(a)); p.setswarm(a, true, false); break;
    case 1: ensure(a); c.note(p.who() + "leave " + S(a)); p.setswarm(a, false, false); break;
    case 2: { ensure(a); int v = (int)s.pickl<int>({1, 0, 2, -1, 256, 512, 65536, -256}); c.note(p.who() + "select " + S(a) + " " + S(v)); p.setswarm(a, v != 0, true, v); break; }
    case 3: ensure(a); c.note(p.who() + "others " + S(a) + " -> " + S(b)); if (a == b) { bool in = !p.m.swarms[a]; p.r.call("others", {vi(a), vi(b)}); p.m.setop(b, in); } else { p.r.call("others", {vi(a), vi(b)}); p.m.setop(b, !p.m.swarms[a]); } break;
    case 4: { ensure(a); ensure(b); int o = (int)s.draw(3); bool x = p.m.swarms[a], y = p.m.swarms[b]; bool in = o == 0 ? x || y : o == 1 ? x && y : x && !y; c.note(p.who() + (o == 0 ? "union " : o == 1 ? "intersection " : "difference ") + S(d) + " of " + S(a) + " " + S(b)); p.r.call(o == 0 ? "union" : o == 1 ? "inter" : "diff", {vi(d), vi(a), vi(b)}); p.m.setop(d, in); break; }
    default: c.note(p.who() + "create " + S(a)); ensure(a); 
  }
  for (auto& kv : p.m.swarms) { if (p.r.call("isin", {vi(kv.first)}) != "i:" + S(kv.second)) fail(p.who() + "in() of swarm " + S(kv.first) + " is wrong"); }
}
static void checkkin(Pair& p, const std::vector<uint16_t>& nb) {
  buzzneighbors_reset(p.r.vm()); for (size_t i = 0; i < nb.size(); ++i) buzzneighbors_add(p.r.vm(), nb[i], (float)i + 0.5f, 0, 0);
  for (auto& kv : p.m.swarms) {
    Val e; if (kv.second) { Val a = tab({}), b = tab({}); for (size_t i = 0; i < nb.size(); ++i) (p.m.member(nb[i], kv.first) ? a : b).tab->kv.push_back({vi(nb[i]), vf((float)i + 0.5f)}); e = tab({{vs("a"), a}, {vs("b"), b}}); }
    std::string g = p.r.call("kinof", {vi(kv.first)}); if (g != show(e)) fail(p.who() + "kin/nonkin in swarm " + S(kv.first) + ": " + g + " instead of " + show(e));
  }
}
// one robot with crafted traffic, in lock step with the model
static void view(Src& s, Ctx& c) {
  Pair p((uint16_t)s.pickl<int>({1, 77, 65535})); p.r.hostile = s.chance(1, 6); std::vector<uint16_t> nb = {2, 12, 22, 300, 65534, 258}; size_t n = 5 + s.len(50), aged = 0;
  for (size_t i = 0; i < n; ++i) {
    switch (s.weighted({4, 8, 2, 2, 2, 1})) {
      case 5: { // several robots in the same step, then silence
        for (auto f : nb) if (s.chance(2, 3)) { MMsg m; m.type = s.flip() ? BUZZMSG_SWARM_JOIN : BUZZMSG_SWARM_LIST; m.ids = {s.pick(SW)}; c.note(S(f) + " says " + m.str()); p.r.receive(f, encode(m)); p.m.apply(f, m); }
        size_t k = s.pickl<size_t>({49, 50, 51, 51, 51, 1}); c.note("then silence x" + S(k)); for (size_t j = 0; j < k; ++j) { p.deliver(2, {}); if (s.chance(1, 25)) p.checkmembers(nb, SW); } aged += k; break; }
      case 0: swarmop(s, c, p); break;
      case 1: {
        size_t k = 1 + s.draw(4); std::vector<Bytes> ms; uint16_t from = s.pick(nb);
        for (size_t j = 0; j < k; ++j) { MMsg m; m.type = (int)s.pickl<int>({BUZZMSG_SWARM_JOIN, BUZZMSG_SWARM_JOIN, BUZZMSG_SWARM_LEAVE, BUZZMSG_SWARM_LIST}); if (m.type == BUZZMSG_SWARM_LIST) { for (auto w : SW) if (s.flip()) m.ids.push_back(w); if (s.chance(1, 8)) { size_t k = s.pickl<size_t>({10, 60, 70, 100, 130, 260, 300}), at = s.draw(m.ids.size() + 1); std::vector<uint16_t> x; for (size_t q = 0; q < k; ++q) x.push_back((uint16_t)(1000 + q)); m.ids.insert(m.ids.begin() + at, x.begin(), x.end()); } } else m.ids = {s.pick(SW)}; c.note(S(from) + " says " + m.str()); ms.push_back(encode(m)); }
        p.deliver(from, ms); break; }
      case 2: { size_t k = s.pickl<size_t>({1, 3, 20, 48, 49, 50, 51}); c.note("silence x" + S(k)); for (size_t j = 0; j < k; ++j) p.deliver(2, {}); aged += k; break; }
      case 3: { size_t k = 1 + s.draw(11); for (size_t j = 0; j < k; ++j) p.outstep(); break; }
      default: { Bytes b; while (p.pop(b)) c.note("sent " + decode(b).str()); }
    }
    p.checkmembers(nb, SW); if (s.chance(1, 3)) checkkin(p, nb);
  }
  checkkin(p, nb); c.nontrivial = n > 10; c.cls("silent steps", aged);
}
// several robots over a network: after the dust settles every robot's view of its neighbors is the truth
static void swarmnet(Src& s, Ctx& c) {
  size_t n = 2 + s.draw(4); std::vector<std::unique_ptr<Pair>> R; std::vector<uint16_t> ids; for (size_t i = 0; i < n; ++i) { uint16_t id = (uint16_t)(s.flip() ? i * 10 + 3 : i + 60000); ids.push_back(id); R.emplace_back(new Pair(id)); for (auto w : SW) if (s.chance(3, 4)) R[i]->swarmcreate(w); }
  unsigned loss = s.flip() ? 0 : 1 + (unsigned)s.draw(4); bool lost = false; size_t steps = 3 + s.len(25);
  auto round = [&](bool rel) {
    std::vector<std::vector<Bytes>> out(n);
    for (size_t i = 0; i < n; ++i) { R[i]->outstep(); Bytes b; size_t cap = rel ? 1000 : s.draw(6); while (out[i].size() < cap && R[i]->pop(b)) out[i].push_back(b); }
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < n; ++i) if (i != j) { std::vector<Bytes> in; for (auto& b : out[i]) { if (!rel && loss && s.draw(8) < loss) { lost = true; continue; } in.push_back(b); } if (!in.empty()) for (auto& b : in) { R[j]->r.receive(ids[i], b); R[j]->m.apply(ids[i], decode(b)); } }
    for (size_t j = 0; j < n; ++j) { R[j]->r.process(); R[j]->r.check("on swarm messages"); R[j]->m.age(); }
  };
  auto truth = [&](const char* when) {
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (i != j) for (auto w : SW) { bool t = R[j]->m.swarms.count(w) && R[j]->m.swarms[w]; if ((bool)buzzswarm_members_isrobotin(R[i]->r.vm()->swarmmembers, ids[j], w) != t) fail(fmt("%s robot %u thinks robot %u %s in swarm %u", when, ids[i], ids[j], t ? "is not" : "is", w)); }
  };
  for (size_t t = 0; t < steps; ++t) { size_t k = s.draw(3); for (size_t j = 0; j < k; ++j) swarmop(s, c, *R[s.draw(n)]); round(false); for (size_t i = 0; i < n; ++i) R[i]->checkmembers(ids, SW); }
  if (!lost) { round(true); truth("with a reliable network,"); }
  // after losses, the periodic lists repair the views
  for (int t = 0; t < 10; ++t) round(true); truth("after ten loss-free steps,");
  size_t more = s.draw(60); for (size_t t = 0; t < more; ++t) round(true); truth("later,");
  for (size_t i = 0; i < n; ++i) checkkin(*R[i], ids);
  c.cls(lost ? "with losses" : "reliable"); c.nontrivial = steps > 3;
}
int main(int argc, char** argv) {
  std::vector<Test> t = { {"view", view, 12000, 240000}, {"network", swarmnet, 4000, 80000} };
  return run(argc, argv, "P14", t);
}
