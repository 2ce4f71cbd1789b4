// Simulated robots: real VMs exchanging real messages over a generated network.
#pragma once
#include "ref.hpp"
#include <deque>

namespace net {
using pbt::Src; using pbt::Ctx; using pbt::fail; using bz::S; using bz::fmt;
typedef std::vector<uint8_t> Bytes;
using ref::Val; using ref::vi; using ref::vf; using ref::vs;

// compiled once per worker process
inline const std::vector<uint8_t>& bytecode(const std::string& source) {
  static std::map<std::string, std::vector<uint8_t>> cache;
  auto it = cache.find(source);
  if (it != cache.end()) return it->second;
  bz::Compiled c; bz::compile(source, c, "net");
  if (!c.assembled) fail("a valid program was rejected by the compiler");
  return cache[source] = c.bcode;
}
inline Val tab(std::vector<std::pair<Val, Val>> kv) { Val v; v.t = ref::VTAB; v.tab = std::make_shared<ref::Table>(); v.tab->kv = kv; return v; }
inline std::string show(const Val& v) { ref::DumpR d; return d.dump(v); }

inline void push(buzzvm_t vm, const Val& v) {
  switch (v.t) {
    case ref::VNIL: buzzvm_pushnil(vm); return;
    case ref::VINT: buzzvm_pushi(vm, v.i); return;
    case ref::VFLT: buzzvm_pushf(vm, v.f); return;
    case ref::VSTR: buzzvm_pushs(vm, buzzvm_string_register(vm, v.s.c_str(), 0)); return;
    case ref::VTAB: {
      buzzvm_pusht(vm);
      for (auto& p : v.tab->kv) { buzzvm_dup(vm); push(vm, p.first); push(vm, p.second); buzzvm_tput(vm); }
      return;
    }
    default: buzzvm_pushnil(vm);
  }
}
inline buzzmsg_payload_t payload(const Bytes& b) {
  buzzmsg_payload_t p = buzzmsg_payload_new(b.empty() ? 1 : b.size());
  for (uint8_t x : b) buzzmsg_serialize_u8(p, x);
  return p;
}
inline Bytes bytes(buzzmsg_payload_t p) { Bytes b; for (int64_t i = 0; i < (int64_t)buzzmsg_payload_size(p); ++i) b.push_back(buzzmsg_payload_get(p, i)); return b; }
inline std::string hex(const Bytes& b) { std::string s; char t[4]; for (uint8_t x : b) { snprintf(t, sizeof t, "%02x", x); s += t; } return s; }

struct Robot {
  bz::VM w; uint16_t id; bool hostile = false;
  buzzvm_t vm() const { return w.vm; }
  Robot(uint16_t id_, const std::string& src) : w(id_), id(id_) {
    if (!w.load(bytecode(src))) fail("loading failed: " + w.err());
    if (!w.run()) fail("script did not finish");
    if (w.vm->state != BUZZVM_STATE_DONE) fail("script failed: " + w.err());
    w.vm->state = BUZZVM_STATE_READY;
  }
  void squeeze() { if (hostile) w.vm->heap->max_objs = 0; }
  // call a script function; returns its value
  std::string callraw(const std::string& f, const std::vector<Val>& args, bool mayfail = false) {
    squeeze();
    buzzvm_pushs(w.vm, buzzvm_string_register(w.vm, f.c_str(), 0)); buzzvm_gload(w.vm);
    for (auto& a : args) push(w.vm, a);
    buzzvm_closure_call(w.vm, args.size());
    if (w.vm->state != BUZZVM_STATE_READY) { if (mayfail) return "error:" + w.err(); fail("robot " + S(id) + ": " + f + "() failed: " + w.err()); }
    if (buzzdarray_isempty(w.vm->stack)) fail("robot " + S(id) + ": " + f + "() left no result");
    std::string r = bz::dump(buzzvm_stack_at(w.vm, 1));
    buzzvm_pop(w.vm);
    return r;
  }
  std::string call(const std::string& f, const std::vector<Val>& args = {}) { return callraw(f, args); }
  void receive(uint16_t from, const Bytes& b) { buzzinmsg_queue_append(w.vm, from, payload(b)); }
  void process() { squeeze(); buzzvm_process_inmsgs(w.vm); }
  void check(const char* when) { if (w.vm->state != BUZZVM_STATE_READY) fail(std::string("robot ") + S(id) + " stopped " + when + ": " + w.err()); }
  bool pending() { return buzzoutmsg_queue_size(w.vm) > 0; }
  bool pop(Bytes& b) {
    if (!pending()) return false;
    buzzmsg_payload_t m = buzzoutmsg_queue_first(w.vm);
    if (!m) fail("robot " + S(id) + ": outgoing queue reports messages but yields none");
    b = bytes(m); buzzmsg_payload_destroy(&m); buzzoutmsg_queue_next(w.vm); return true;
  }
  std::vector<Bytes> drain(size_t cap = 100000) { std::vector<Bytes> o; Bytes b; while (o.size() < cap && pop(b)) o.push_back(b); return o; }
};

// Independent decoder of the wire format
struct Dec {
  const Bytes& b; size_t p = 0; bool ok = true;
  explicit Dec(const Bytes& x, size_t from = 0) : b(x), p(from) {}
  uint32_t u(int n) { uint32_t r = 0; for (int i = 0; i < n; ++i) { if (p >= b.size()) { ok = false; return 0; } r = (r << 8) | b[p++]; } return r; }
};
inline std::string msgtype(const Bytes& m) {
  if (m.empty()) return "empty";
  switch (m[0]) { case BUZZMSG_BROADCAST: return "BROADCAST"; case BUZZMSG_SWARM_LIST: return "SWARM_LIST"; case BUZZMSG_SWARM_JOIN: return "SWARM_JOIN"; case BUZZMSG_SWARM_LEAVE: return "SWARM_LEAVE"; case BUZZMSG_VSTIG_PUT: return "VSTIG_PUT"; case BUZZMSG_VSTIG_QUERY: return "VSTIG_QUERY"; }
  return "type" + S(m[0]);
}

// random plain values (keys are int/float/string)
inline Val rscalar(Src& s) {
  switch (s.weighted({4, 2, 3})) {
    case 0: return vi(s.flip() ? (int32_t)s.range(-10, 100) : (int32_t)s.pickl<int32_t>({0, 255, 256, 65535, 65536, -1, INT32_MAX, INT32_MIN, 1 << 24}));
    case 1: return vf((float)s.range(-400, 400) / 8);
    default: { static const std::vector<std::string> w = {"", "a", "hello", "x y", "10", "key", "a longer string value", "\xc3\xa9t\xc3\xa9", "line\nbreak"}; return vs(s.pick(w)); }
  }
}
inline Val rvalue(Src& s, int d = 2) {
  if (d > 0 && s.chance(1, 4)) { Val t = tab({}); size_t n = s.draw(5); ref::Interp in; for (size_t i = 0; i < n; ++i) in.tput(t, rscalar(s), rvalue(s, d - 1)); return t; }
  return rscalar(s);
}
}  // namespace net
