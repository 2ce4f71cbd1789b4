// Virtual stigmergy: eventual agreement on the latest value, over any network history.
#include "model.hpp"
using namespace ref; using namespace pbt; using namespace net;

struct Ver { uint16_t ts = 0, robot = 0; Val data; };
static bool before(Policy p, const Ver& a, const Ver& b) {   // a loses to b
  if (a.ts != b.ts) return a.ts < b.ts;
  MElem x{a.data, a.ts, a.robot}, y{b.data, b.ts, b.robot}; if (a.robot == b.robot) return false;
  return !Model::localwins(p, x, y);
}
static Val rkey(Src& s, int n) { int k = (int)s.draw(n); return k % 3 == 0 ? vi(k) : k % 3 == 1 ? vs("k" + S(k)) : vf(k + 0.5f); }
static buzzobj_t mkobj(buzzvm_t vm, const Val& v) { push(vm, v); buzzobj_t o = buzzvm_stack_at(vm, 1); return o; }
static bool version(Robot& r, uint16_t sid, const Val& k, Ver& v) {
  buzzobj_t o = mkobj(r.vm(), k); const buzzvstig_t* vs = (const buzzvstig_t*)buzzdict_rawget(r.vm()->vstigs, &sid); bool ok = false;
  if (vs) { const buzzvstig_elem_t* e = (const buzzvstig_elem_t*)buzzdict_rawget((*vs)->data, &o); if (e) { v.ts = (*e)->timestamp; v.robot = (*e)->robot; ok = true; } }
  buzzvm_pop(r.vm()); return ok;
}
static void converge(Src& s, Ctx& c) {
  size_t n = 2 + s.draw(5); std::vector<std::unique_ptr<Robot>> R; std::vector<uint16_t> ids;
  while (ids.size() < n) { uint16_t i = (uint16_t)(s.flip() ? 1 + s.draw(12) : s.draw(65536)); if (std::find(ids.begin(), ids.end(), i) == ids.end()) ids.push_back(i); else ids.push_back((uint16_t)(1000 + ids.size())); }
  std::vector<uint16_t> sg = {1}; if (s.flip()) sg.push_back(513); std::map<uint16_t, Policy> pol;
  for (auto g : sg) pol[g] = s.chance(1, 2) ? PDEFAULT : (Policy)(1 + s.draw(3));
  for (auto i : ids) { R.emplace_back(new Robot(i, NETSRC)); R.back()->hostile = s.chance(1, 8); for (auto g : sg) R.back()->call("create", {vi(g), vi(pol[g]), vi(s.flip())}); }
  auto topo = [&] { std::vector<std::vector<char>> a(n, std::vector<char>(n, 0)); unsigned kind = (unsigned)s.draw(4); for (size_t i = 1; i < n; ++i) { size_t j = kind == 0 ? i - 1 : kind == 1 ? 0 : s.draw(i); a[i][j] = a[j][i] = 1; } if (kind == 3) for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) if (s.chance(1, 3)) a[i][j] = a[j][i] = 1; return a; };
  auto adj = topo(); bool lossy = s.flip(); unsigned loss = lossy ? 1 + (unsigned)s.draw(5) : 0; bool dup = s.flip(), delay = s.flip(), reorder = s.chance(1, 3); bool anyloss = false;
  c.note(fmt("%zu robots, loss %u/6, dup %d, delay %d, reorder %d", n, loss, dup, delay, reorder)); c.cls(lossy ? "lossy then repaired" : "reliable");
  typedef std::deque<Bytes> Link; std::vector<std::vector<Link>> link(n, std::vector<Link>(n));
  int nk = 1 + (int)s.draw(5); std::map<std::pair<uint16_t, std::string>, std::vector<Ver>> hist; std::map<std::pair<uint16_t, std::string>, Val> keys;
  std::map<std::pair<size_t, std::pair<uint16_t, std::string>>, Ver> last;   // monotonicity
  auto mono = [&](size_t i) {
    for (auto& kv : keys) { Ver v; if (!version(*R[i], kv.first.first, kv.second, v)) { if (last.count({i, kv.first})) fail("robot " + S(ids[i]) + " forgot a stigmergy entry"); continue; }
      bool known = false; for (auto& h : hist[kv.first]) if (h.ts == v.ts && h.robot == v.robot) { v.data = h.data; known = true; }
      if (!known) fail(fmt("robot %u holds version %u/%u of a key that nobody wrote", ids[i], v.ts, v.robot));
      auto it = last.find({i, kv.first}); if (it != last.end() && before(pol[kv.first.first], v, it->second)) fail(fmt("robot %u went back from version %u/%u to %u/%u", ids[i], it->second.ts, it->second.robot, v.ts, v.robot));
      last[{i, kv.first}] = v; }
  };
  auto send = [&](size_t i, bool rel) {
    for (auto& b : R[i]->drain(400)) for (size_t j = 0; j < n; ++j) if (adj[i][j]) {
      if (!rel && loss && s.draw(6) < loss) { anyloss = true; continue; }
      link[i][j].push_back(b); if (!rel && dup && s.chance(1, 5)) link[i][j].push_back(b);
    }
  };
  auto recv = [&](size_t j, bool rel) {
    bool got = false;
    for (size_t i = 0; i < n; ++i) { Link& l = link[i][j]; size_t k = l.size(); if (!rel && delay) k = s.draw(k + 1);
      for (size_t q = 0; q < k; ++q) { size_t at = !rel && reorder && l.size() > 1 ? s.draw(l.size()) : 0; R[j]->receive(ids[i], l[at]); l.erase(l.begin() + at); got = true; } }
    if (got || s.chance(1, 4)) R[j]->process(); R[j]->check("on receiving stigmergy messages"); return got;
  };
  // old entries: versions written long ago by robots that left the swarm
  if (s.chance(1, 4)) { size_t k = 1 + s.draw(3); uint16_t ghost = 20000; for (size_t q = 0; q < k; ++q) { while (std::find(ids.begin(), ids.end(), ghost) != ids.end()) ++ghost; uint16_t g = s.pick(sg); Val key = rkey(s, nk); Ver v; v.ts = (uint16_t)s.pickl<int>({3, 200, 256, 300, 1000, 30000, 32767, 32768, 33000, 40000, 65000}); v.robot = ghost++; v.data = vi((int32_t)s.draw(100)); MMsg m; m.type = BUZZMSG_VSTIG_PUT; m.id = g; m.key = key; m.e.ts = v.ts; m.e.robot = v.robot; m.e.data = v.data; size_t at = s.draw(n); c.note("robot " + S(ids[at]) + " starts with " + m.str()); R[at]->receive(v.robot, encode(m)); R[at]->process(); auto hk = std::make_pair(g, keystr(key)); hist[hk].push_back(v); keys[hk] = key; } for (size_t j = 0; j < n; ++j) mono(j); c.cls("old entries"); }
  size_t steps = 3 + s.len(25);
  for (size_t t = 0; t < steps; ++t) {
    if (lossy && s.chance(1, 5)) { adj = topo(); anyloss = true; }
    size_t i = s.draw(n); uint16_t g = s.pick(sg);
    size_t ops = s.weighted({2, 4, 1});
    for (size_t o = 0; o < ops; ++o) {
      i = s.draw(n); Val k = rkey(s, nk); auto hk = std::make_pair(g, keystr(k));
      if (s.chance(1, 5)) { c.note("robot " + S(ids[i]) + " get " + S(g) + " " + show(k)); R[i]->call("get", {vi(g), k}); continue; }
      Val v = s.chance(1, 6) ? Val() : s.chance(1, 5) ? rvalue(s, 1) : vi((int32_t)s.draw(100));
      Ver b0, b1; bool had = version(*R[i], g, k, b0); R[i]->call("put", {vi(g), k, v}); bool has = version(*R[i], g, k, b1);
      c.note("robot " + S(ids[i]) + " put " + S(g) + " " + show(k) + " " + show(v) + (has ? fmt(" -> version %u", b1.ts) : ""));
      if (has && (!had || b1.ts != b0.ts)) { if (b1.robot != ids[i] || (had && b1.ts <= b0.ts)) fail("a write did not create a newer version owned by its robot"); b1.data = v; hist[hk].push_back(b1); keys[hk] = k; }
      else if (v.t != VNIL) fail("writing a value created no new version");
    }
    for (size_t j = 0; j < n; ++j) if (s.chance(3, 4)) send(j, false);
    for (size_t j = 0; j < n; ++j) if (s.chance(3, 4)) recv(j, false);
    for (size_t j = 0; j < n; ++j) mono(j);
  }
  // the network becomes reliable and connected; if anything was lost every robot reads every key once
  auto winner = [&](const std::pair<uint16_t, std::string>& k) { Ver w; for (auto& v : hist[k]) if (w.ts == 0 || before(pol[k.first], w, v)) w = v; return w; };
  bool quiet = false, lag = s.flip(); if (anyloss) adj = topo();
  if (anyloss && !lag) { c.note("every robot reads every key"); for (size_t i = 0; i < n; ++i) for (auto& kv : keys) R[i]->call("get", {vi(kv.first.first), kv.second}); }
  // or: only robots that missed the winning version read, again and again: the neighbours that know better must answer them
  if (anyloss && lag) { c.cls("repaired by the readers"); c.note("robots that missed a version read it");
    for (size_t rd = 0; rd <= n + 1; ++rd) {
      for (int t = 0; t < 30; ++t) { bool busy = false; for (size_t i = 0; i < n; ++i) send(i, true); for (size_t j = 0; j < n; ++j) busy |= recv(j, true); if (!busy) break; }
      if (rd <= n) for (size_t i = 0; i < n; ++i) for (auto& kv : keys) { Ver w = winner(kv.first), v; if (!version(*R[i], kv.first.first, kv.second, v) || v.ts != w.ts || v.robot != w.robot) R[i]->call("get", {vi(kv.first.first), kv.second}); } } }
  for (int t = 0; t < 80 && !quiet; ++t) { for (size_t i = 0; i < n; ++i) send(i, true); for (size_t j = 0; j < n; ++j) recv(j, true); quiet = true; for (size_t i = 0; i < n; ++i) { if (R[i]->pending()) quiet = false; for (size_t j = 0; j < n; ++j) if (!link[i][j].empty()) quiet = false; } }
  // reads of keys that were never written circulate forever: that traffic is ignored
  if (!quiet) for (size_t i = 0; i < n; ++i) for (auto& b : R[i]->drain(400)) { MMsg m = decode(b); if (m.e.ts != 0) fail("the robots keep exchanging messages after all writes stopped: " + m.str()); }
  for (size_t i = 0; i < n; ++i) mono(i);
  size_t writers = 0;
  for (auto g : sg) {
    Val t = tab({});
    for (auto& kv : keys) if (kv.first.first == g) {
      Ver w = winner(kv.first);
      std::set<uint16_t> who; for (auto& v : hist[kv.first]) who.insert(v.robot); writers = std::max(writers, who.size());
      for (size_t i = 0; i < n; ++i) { Ver v; if (!version(*R[i], g, kv.second, v)) fail("robot " + S(ids[i]) + " never learned about key " + show(kv.second)); if (v.ts != w.ts || v.robot != w.robot) fail(fmt("robot %u ends with version %u/%u of key %s, the winning version is %u/%u", ids[i], v.ts, v.robot, show(kv.second).c_str(), w.ts, w.robot)); }
      if (w.data.t != VNIL) t.tab->kv.push_back({kv.second, tab({{vs("x"), w.data}, {vs("r"), vi(w.robot)}})});
    }
    for (size_t i = 0; i < n; ++i) { std::string got = R[i]->call("contents", {vi(g)}); if (got != show(t)) fail("robot " + S(ids[i]) + " ends with " + got + " instead of " + show(t)); if (R[i]->call("vsize", {vi(g)}) != "i:" + S(t.tab->kv.size())) fail("robot " + S(ids[i]) + " ends with size " + R[i]->call("vsize", {vi(g)})); }
  }
  c.cls("keys", keys.size()); c.nontrivial = writers > 1;
}
int main(int argc, char** argv) {
  std::vector<Test> t = { {"converge", converge, 10000, 200000} };
  return run(argc, argv, "P12", t);
}
