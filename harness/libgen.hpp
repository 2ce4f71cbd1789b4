// Generators shared by several harnesses: scripts over the whole run-time library, and network messages.
#pragma once
#include "net.hpp"
namespace lib {
using namespace ref; using namespace pbt; using namespace net;
// scripts exercising every root (globals, locals, stacks, closures, stigmergy, listeners, queues, strings, swarms, neighbors)
inline std::string libscript(Src& s, Ctx& c) {
  std::string t = "v = stigmergy.create(1)\nw = stigmergy.create(2)\ns = swarm.create(3)\ns2 = swarm.create(4)\nacc = {}\nn = 0\nfunction ts(k) { if(isint(k) or isfloat(k)) { return string.tostring(k) } else { return \"s\" } }\n";
  auto word = [&] { return s.pickl<std::string>({"\"a\"", "\"b\"", "\"key\"", "\"zz\""}); };
  auto num = [&] { return std::to_string(s.range(0, 9)); };
  auto fresh = [&] { return "string.concat(" + word() + ", string.tostring(" + num() + " + n), " + word() + ")"; };
  auto topic = [&] { return s.flip() ? word() : s.flip() ? "string.concat(\"to\", \"pic\")" : "string.concat(" + word() + ", string.tostring(" + s.pickl<std::string>({"1", "2", "n % 2"}) + "))"; };   // computed topics: only the listener keeps the text
  auto val = [&]() -> std::string { switch (s.draw(6)) { case 0: return num(); case 1: return word(); case 2: return fresh(); case 3: return "{.x=" + num() + ",.y=" + fresh() + "}"; case 4: return "{." + num() + "={.k=" + fresh() + "}}"; default: return num() + ".5"; } };
  auto stg = [&] { return s.flip() ? "v" : "w"; };
  auto one = [&](int) -> std::string {
    switch (s.draw(24)) {
      case 0: return std::string(stg()) + ".put(" + (s.flip() ? fresh() : num()) + ", " + val() + ")\n";
      case 1: return "log(" + std::string(stg()) + ".get(" + (s.flip() ? fresh() : num()) + "))\n";
      case 2: return "log(" + std::string(stg()) + ".size())\n";
      case 3: return std::string(stg()) + ".foreach(function(k, x, r) { acc[string.concat(\"f\", ts(k))] = x })\n";
      case 4: return std::string(stg()) + ".onconflict(function(k, l, r) { k = 0 acc[\"c\"] = string.concat(\"w\", string.tostring(r.robot)) if(l.robot > r.robot) { return l } else { return r } })\n";
      case 5: return std::string(stg()) + ".onconflictlost(function(k, l) { log(\"lost\", k, l.data) k = nil l = nil n = n + 1 })\n";
      case 6: return "neighbors.listen(" + topic() + ", function(t, x, r) { acc[t] = x x = nil log(\"heard\", t, r) t = string.concat(\"q\",\"r\") })\n";
      case 7: return "neighbors.ignore(" + topic() + ")\n";
      case 8: return "neighbors.broadcast(" + topic() + ", " + val() + ")\n";
      case 9: return "acc[" + (s.flip() ? num() : fresh()) + "] = " + val() + "\n";
      case 10: return "acc[" + num() + "] = function(p) { log(\"m\", p, size(self)) return " + fresh() + " }\n";
      case 11: return "if(isclosure(acc[" + num() + "])) log(1)\n";
      case 12: return "log(map(acc, function(k, x) { return string.concat(ts(k), \"!\") }))\n";
      case 13: return "acc = filter(acc, function(k, x) { return isint(k) or isstring(x) })\n";
      case 14: return "log(reduce(acc, function(k, x, a) { return a + size({.a=x}) }, 0))\n";
      case 15: return "s.join()\n";
      case 16: return "s.exec(function() { log(\"in\", swarm.id(), " + fresh() + ") s2.join() s2.exec(function() { log(swarm.id(2), " + fresh() + ") }) })\n";
      case 17: return "s2.select(" + std::string(s.flip() ? "1" : "0") + ")\n";
      case 18: return "log(neighbors.map(function(r, d) { return { .q = string.concat(\"d\", string.tostring(d.distance)) } }).reduce(function(r, d, a) { return string.concat(a, \"/\") }, \"\"))\n";
      case 19: return "log(neighbors.filter(function(r, d) { return d.distance > " + num() + ".5 }).count(), neighbors.kin().count(), neighbors.nonkin().count())\n";
      case 20: return "x" + num() + " = " + val() + "\n";
      case 21: return "log(string.sub(" + fresh() + ", 1), clone(acc))\n";
      case 22: return "n = n + 1\nacc = {.old=acc.old,.n=n,.s=" + fresh() + "}\n";
      default: return "log(x" + num() + ", acc, n)\n";
    }
  };
  size_t a = 1 + s.draw(8); for (size_t i = 0; i < a; ++i) t += one(0);
  t += "function step() {\n"; size_t b = 1 + s.draw(10); for (size_t i = 0; i < b; ++i) t += one(1); t += "log(n)\n}\n";
  return t;
}
struct Enc {
  Bytes b;
  void u8(uint32_t x) { b.push_back(x); } void u16(uint32_t x) { u8(x >> 8); u8(x); } void u32(uint32_t x) { u16(x >> 16); u16(x); }
};
// encodes a random object; may deliberately be odd (bad types, wrong counts)
inline void eobj(Src& s, Enc& e, int d, bool odd) {
  if (odd && s.chance(1, 12)) { e.u8((uint32_t)s.draw(256)); return; }
  switch (s.weighted({2, 4, 3, 4, (unsigned)(d > 0 ? 4 : 0), 1})) {
    case 0: e.u8(0); return;
    case 1: e.u8(1); e.u32(s.flip() ? (uint32_t)s.draw(300) : (uint32_t)s.draw(0x100000000ull)); return;
    case 2: e.u8(2); if (s.flip()) { e.u32((uint32_t)s.draw(0x100000000ull)); e.u32(s.flip() ? (uint32_t)s.draw(40) : (uint32_t)s.draw(0x100000000ull)); } else { e.u32(s.flip() ? 0 : 0x80000000u); e.u32((uint32_t)s.draw(6)); } return;
    case 3: { e.u8(3); size_t n = s.draw(8); uint32_t l = n; if (odd && s.chance(1, 6)) l = s.pickl<uint32_t>({0, 0xffff, 0xfffe, 300, 1}); e.u16(l); if (l == 0xffff) e.u32(s.pickl<uint32_t>({0, 2, 0xffffffffu, 0x7fffffffu, 0x80000000u})); for (size_t i = 0; i < n; ++i) e.u8(s.chance(1, 20) ? 0 : 'a' + s.draw(4)); return; }
    case 4: { e.u8(4); size_t n = s.draw(5); uint32_t l = n; if (odd && s.chance(1, 6)) l = (uint32_t)s.draw(256); e.u8(l); if (l == 255) e.u32(s.pickl<uint32_t>({0, 1, 0xffffffffu, 3})); for (size_t i = 0; i < n; ++i) { eobj(s, e, odd && s.chance(1, 5) ? d - 1 : 0, odd); eobj(s, e, d - 1, odd); } return; }
    default: e.u8(5); e.u8(s.flip() ? 1 : (uint32_t)s.draw(256)); e.u32(s.flip() ? (uint32_t)s.draw(200) : (uint32_t)s.draw(0x100000000ull)); return;
  }
}
inline void estr(Enc& e, const std::string& t) { e.u8(3); e.u16(t.size()); for (char ch : t) e.u8(ch); }
inline Bytes gen(Src& s, bool odd) {
  Enc e;
  if (odd && s.chance(1, 6)) { size_t n = s.len(40); for (size_t i = 0; i < n; ++i) e.u8((uint32_t)(s.flip() ? s.draw(8) : s.draw(256))); return e.b; }
  switch (s.draw(odd ? 7 : 6)) {
    case 0: e.u8(BUZZMSG_BROADCAST); if (odd && s.chance(1, 4)) { if (s.flip()) eobj(s, e, 1, true); else { e.u8(s.flip() ? 5 : 1); if (e.b.back() == 5) e.u8((uint32_t)s.draw(2)); e.u32((uint32_t)s.draw(120)); } } else estr(e, s.pickl<std::string>({"t", "u", "other"})); eobj(s, e, 2, odd); break;
    case 1: case 2: e.u8(s.flip() ? BUZZMSG_VSTIG_PUT : BUZZMSG_VSTIG_QUERY); e.u16(s.pickl<uint32_t>({1, 1, 1, 2, 3, 0xffff})); if (odd && s.chance(1, 4)) eobj(s, e, 1, true); else { if (s.flip()) { e.u8(1); e.u32((uint32_t)s.draw(4)); } else estr(e, s.pickl<std::string>({"k", "l"})); } eobj(s, e, 2, odd); e.u16(s.pickl<uint32_t>({0, 1, 1, 2, 3, 0xffff})); e.u16(s.pickl<uint32_t>({4, 6, 0, 5})); break;
    case 3: { e.u8(BUZZMSG_SWARM_LIST); size_t n = s.draw(5); e.u16(odd && s.chance(1, 4) ? s.pickl<uint32_t>({0xffff, 6, 0, 300}) : n); for (size_t i = 0; i < n; ++i) e.u16((uint32_t)s.draw(5)); break; }
    case 4: e.u8(BUZZMSG_SWARM_JOIN); e.u16((uint32_t)s.draw(5)); break;
    case 5: e.u8(BUZZMSG_SWARM_LEAVE); e.u16((uint32_t)s.draw(5)); break;
    default: e.u8((uint32_t)s.draw(256)); { size_t n = s.draw(10); for (size_t i = 0; i < n; ++i) e.u8((uint32_t)s.draw(256)); }
  }
  if (odd) {
    size_t m = s.draw(3);
    for (size_t i = 0; i < m && !e.b.empty(); ++i) switch (s.draw(4)) {
      case 0: e.b.resize(s.draw(e.b.size())); break;
      case 1: e.b[s.draw(e.b.size())] = (uint8_t)s.pickl<int>({0, 1, 2, 3, 4, 5, 6, 7, 127, 128, 254, 255}); break;
      case 2: e.b.insert(e.b.begin() + s.draw(e.b.size()), (uint8_t)s.draw(256)); break;
      default: e.b.erase(e.b.begin() + s.draw(e.b.size()));
    }
  }
  return e.b;
}
}  // namespace lib
