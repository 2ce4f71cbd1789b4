// Anything may arrive from the network: malformed messages are discarded without effect.
#include "libgen.hpp"
using namespace ref; using namespace pbt; using namespace net;

using lib::Enc; using lib::eobj; using lib::estr; using lib::gen;
// independent judgement: is the message well formed?
static bool okobj(Dec& d, int* type) {
  uint32_t t = d.u(1); if (!d.ok) return false; *type = t;
  switch (t) {
    case 0: return true;
    case 1: d.u(4); return d.ok;
    case 2: d.u(4); d.u(4); return d.ok;
    case 3: { uint64_t l = d.u(2); if (!d.ok) return false; if (l == 0xffff) { l = d.u(4); if (!d.ok) return false; } if (d.p + l > d.b.size()) return false; d.p += l; return true; }
    case 4: { uint64_t n = d.u(1); if (!d.ok) return false; if (n == 255) { n = d.u(4); if (!d.ok) return false; } for (uint64_t i = 0; i < n; ++i) { int k, v; if (!okobj(d, &k) || !okobj(d, &v)) return false; if (k < 1 || k > 3) return false; } return true; }
    case 5: d.u(1); d.u(4); return d.ok;
  }
  return false;
}
static bool wellformed(const Bytes& b) {
  if (b.empty()) return false; Dec d(b, 1); int t;
  switch (b[0]) {
    case BUZZMSG_BROADCAST: return okobj(d, &t) && t == 3 && okobj(d, &t);
    case BUZZMSG_VSTIG_PUT: case BUZZMSG_VSTIG_QUERY: { d.u(2); if (!d.ok || !okobj(d, &t) || t > 3) return false; if (!okobj(d, &t)) return false; d.u(2); d.u(2); return d.ok; }
    case BUZZMSG_SWARM_LIST: { uint32_t n = d.u(2); if (!d.ok) return false; return b.size() - d.p >= 2ull * n; }
    case BUZZMSG_SWARM_JOIN: case BUZZMSG_SWARM_LEAVE: d.u(2); return d.ok;
  }
  return false;
}
static const char* SRC =
  "n = 0\ncf = 0\nlost = 0\nv = stigmergy.create(1)\nw = stigmergy.create(2)\ns1 = swarm.create(1)\ns2 = swarm.create(2)\ns1.join()\n"
  "got = {}\nneighbors.listen(\"t\", function(t, x, r) { n = n + 1 got[n] = x })\nneighbors.listen(\"u\", function(t, x, r) { n = n + 1 got[n] = t })\n"
  "w.onconflict(function(k, l, r) { cf = cf + 1 if(l.robot > r.robot) { return l } else { return r } })\nw.onconflictlost(function(k, l) { lost = lost + 1 })\n"
  "v.onconflictlost(function(k, l) { lost = lost + 1 })\n"
  "function prep() { v.put(\"k\", 5) v.put(1, {.a=2}) w.put(\"l\", 1.5) }\n"
  "function content(q) { t = {} q.foreach(function(k, x, r) { if(isnil(k)) { t.nilkey = {.x=x,.r=r} } else { t[k] = {.x=x,.r=r} } }) return t }\n"
  "function state() { return {.n=n,.g=got,.cf=cf,.lost=lost,.v=content(v),.w=content(w),.vs=v.size(),.ws=w.size()} }\n"
  "function kin() { r = 0 s1.exec(function() { r = neighbors.kin().count() * 100 + neighbors.nonkin().count() }) return r }\n";
struct Snap { std::string st; std::vector<std::string> out; };
static std::string state(Robot& r) {
  std::string a = r.call("state"); buzzneighbors_reset(r.vm()); for (int i = 1; i < 9; ++i) buzzneighbors_add(r.vm(), i, 1, 1, 1); return a + " " + r.call("kin");
}
static void twins(Src& s, Ctx& c) {
  Robot a(5, SRC), b(5, SRC); a.hostile = s.chance(1, 4); if (s.flip()) { a.call("prep"); b.call("prep"); } if (s.flip()) { a.drain(); b.drain(); }
  size_t rounds = 1 + s.draw(3), bad = 0, good = 0;
  for (size_t r = 0; r < rounds; ++r) {
    size_t n = 1 + s.draw(8);
    for (size_t i = 0; i < n; ++i) {
      Bytes m = gen(s, s.chance(3, 4)); uint16_t from = (uint16_t)(1 + s.draw(4)); bool wf = wellformed(m);
      c.note((wf ? "ok  " : "bad ") + S(from) + " " + hex(m)); (wf ? good : bad)++; c.cls(msgtype(m) + (wf ? " well-formed" : " malformed"));
      a.receive(from, m); if (wf) b.receive(from, m);
    }
    size_t sa = buzzdarray_size(a.vm()->stack), ss = buzzdarray_size(a.vm()->stacks), sl = buzzdarray_size(a.vm()->lsymts);
    a.process(); b.process();
    a.check("on receiving messages"); b.check("on receiving well-formed messages");
    if (buzzdarray_size(a.vm()->stack) != (int64_t)sa || buzzdarray_size(a.vm()->stacks) != (int64_t)ss || buzzdarray_size(a.vm()->lsymts) != (int64_t)sl) fail("processing messages left the machine's stacks unbalanced");
    std::string x = state(a), y = state(b);
    if (x != y) fail("malformed messages had an effect: state " + x + " instead of " + y);
    if (buzzoutmsg_queue_size(a.vm()) != buzzoutmsg_queue_size(b.vm())) fail("malformed messages changed the outgoing queue");
    auto p = a.drain(2000), q = b.drain(2000); for (auto* z : {&p, &q}) for (auto& m : *z) std::sort(m.begin() + 1, m.end());
    if (p != q) fail("malformed messages changed what the robot sends");
  }
  // still works
  Enc e; e.u8(BUZZMSG_BROADCAST); estr(e, "t"); e.u8(1); e.u32(77); std::string before = a.call("state"); a.receive(3, e.b); a.process(); a.check("on a valid message after malformed ones");
  if (a.call("state") == before) fail("a valid message after malformed ones was not delivered");
  c.cls("malformed", bad); c.nontrivial = bad > 0 && good > 0;
}
// long and deeply nested payloads
static void large(Src& s, Ctx& c) {
  Robot a(5, SRC); Enc e; uint8_t ty = s.pickl<uint8_t>({BUZZMSG_BROADCAST, BUZZMSG_VSTIG_PUT, BUZZMSG_VSTIG_QUERY, BUZZMSG_SWARM_LIST}); e.u8(ty);
  if (ty == BUZZMSG_SWARM_LIST) { uint32_t n = s.draw(5000); e.u16(n + s.draw(3)); for (uint32_t i = 0; i < n; ++i) e.u16(i); }
  else {
    if (ty == BUZZMSG_BROADCAST) estr(e, "t"); else { e.u16(1); e.u8(1); e.u32(1); }
    uint32_t depth = (uint32_t)s.draw(1200); bool inkey = s.chance(1, 3), many = s.chance(1, 3);
    if (many) { uint32_t n = s.draw(3000); e.u8(4); e.u8(255); e.u32(n + (s.chance(1, 4) ? 1 : 0)); for (uint32_t i = 0; i < n; ++i) { e.u8(1); e.u32(i * 7); e.u8(1); e.u32(i); } }
    else { for (uint32_t i = 0; i < depth; ++i) { e.u8(4); e.u8(1); if (!inkey) { e.u8(1); e.u32(i); } } e.u8(1); e.u32(9); }
    if (ty != BUZZMSG_BROADCAST && s.flip()) { e.u16(1); e.u16(3); }
  }
  if (s.chance(1, 3)) e.b.resize(s.draw(e.b.size()) + 1);
  c.note(msgtype(e.b) + " " + S(e.b.size()) + " bytes, wellformed=" + S(wellformed(e.b)));
  std::string b0 = a.call("kin"); a.receive(3, e.b); a.process(); a.check("on a large message");
  a.hostile = true; a.call("kin"); a.process(); a.drain(2000); c.nontrivial = e.b.size() > 1000;
}
int main(int argc, char** argv) {
  std::vector<Test> t = { {"twins", twins, 22000, 400000}, {"large", large, 3000, 30000} };
  return run(argc, argv, "P10", t);
}
