// Situated communication: broadcasts reach the listeners of other robots once, in order, with their value.
#include "model.hpp"
using namespace ref; using namespace pbt; using namespace net;

static const std::vector<std::string> TOP = {"a", "b", "topic with spaces", "A", ""};
// one listener at a time, lock step with the model; several messages per step
static void listen(Src& s, Ctx& c) {
  Pair p((uint16_t)s.pickl<int>({1, 50, 65535})); p.r.hostile = s.chance(1, 4); int gen = 0; size_t n = 4 + s.len(40), heard = 0;
  for (size_t i = 0; i < n; ++i) {
    std::string t = s.pick(TOP);
    switch (s.weighted({3, 2, 7, 1})) {
      case 0: ++gen; c.note("listen " + t + " #" + S(gen)); p.listen(t, gen); break;
      case 1: c.note("ignore " + t); p.ignore(t); break;
      case 2: {
        size_t k = 1 + s.draw(6); std::vector<Bytes> ms; size_t e0 = p.m.events.size();
        for (size_t j = 0; j < k; ++j) { MMsg m; m.type = BUZZMSG_BROADCAST; m.topic = vs(s.pick(TOP)); m.value = s.chance(1, 10) ? Val() : rvalue(s, 2); c.note("recv " + m.str()); ms.push_back(encode(m)); }
        p.deliver((uint16_t)s.pickl<int>({2, 12, 700, 65534}), ms); heard += p.m.events.size() - e0; break; }
      default: { size_t k = 1 + s.draw(3); for (size_t j = 0; j < k; ++j) { std::string t2 = s.pick(TOP); Val v = rvalue(s, 2); bool ch = s.flip(); c.note(std::string(ch ? "say and change " : "say ") + t2 + " " + show(v)); if (ch) { p.r.call("saychange", {vs(t2), v}); p.m.say(vs(t2), v); } else p.say(vs(t2), v); } Bytes b; while (p.pop(b)) {} }
    }
    p.events();
  }
  c.cls("heard", heard); c.nontrivial = heard > 2;
}
// many senders in one step: per-sender order, nothing lost, nothing twice
static void crowd(Src& s, Ctx& c) {
  Robot r(9, "n = 0\nneighbors.listen(\"t\", function(t, x, r) { log(r, x) n = n + 1 })\nneighbors.listen(\"u\", function(t, x, r) { log(r, x) })\nfunction count() { return n }\n"); r.hostile = s.chance(1, 6);
  size_t steps = 1 + s.draw(3), total = 0; std::map<uint16_t, std::vector<int>> sent; size_t seen = 0; int serial = 0;
  for (size_t k = 0; k < steps; ++k) {
    size_t n = 1 + s.draw(40);
    std::vector<uint16_t> who; size_t nw = 1 + s.draw(6); for (size_t i = 0; i < nw; ++i) who.push_back((uint16_t)(s.flip() ? s.draw(40) : s.draw(65536)));
    for (size_t i = 0; i < n; ++i) { uint16_t f = s.pick(who); MMsg m; m.type = BUZZMSG_BROADCAST; m.topic = vs(s.pickl<std::string>({"t", "u", "t", "none"})); m.value = vi(++serial); c.note(S(f) + " " + m.str()); r.receive(f, encode(m)); if (m.topic.s != "none") { sent[f].push_back(serial); ++total; } }
    r.process(); r.check("on broadcasts");
    if (r.w.trace.size() - 0 != total) fail(S(r.w.trace.size()) + " listener calls for " + S(total) + " broadcasts");
    std::map<uint16_t, std::vector<int>> got; for (auto& l : r.w.trace) { int f = 0, x = 0; sscanf(l.c_str(), "i:%d i:%d", &f, &x); got[(uint16_t)f].push_back(x); }
    if (got != sent) { for (auto& kv : sent) if (got[kv.first] != kv.second) { std::string a, b; for (int x : kv.second) a += " " + S(x); for (int x : got[kv.first]) b += " " + S(x); fail("messages of robot " + S(kv.first) + " heard as" + b + " instead of" + a); } fail("messages from a robot that sent none"); }
  }
  (void)seen; c.nontrivial = total > 5; c.cls("broadcasts", total);
}
// listeners that change the listeners, broadcast, fail
static void reactive(Src& s, Ctx& c) {
  static const char* RS =
    "function on0(t, x, r) { log(0, t, x, r) neighbors.ignore(t) }\n"
    "function on1(t, x, r) { log(1, t, x, r) neighbors.broadcast(t, x) }\n"
    "function on2(t, x, r) { log(2, t, x, r) neighbors.listen(t, on3) }\n"
    "function on3(t, x, r) { log(3, t, x, r) neighbors.listen(\"b\", on4) }\n"
    "function on4(t, x, r) { log(4, t, x, r) neighbors.ignore(\"a\") neighbors.listen(\"c\", function(tt, xx, rr) { log(5, tt, xx, rr) }) return 7 }\n"
    "function set(t, n) { if(n == 0) { neighbors.listen(t, on0) } if(n == 1) { neighbors.listen(t, on1) } if(n == 2) { neighbors.listen(t, on2) } if(n == 3) { neighbors.listen(t, on3) } if(n == 4) { neighbors.listen(t, on4) } }\n";
  Robot r(3, RS); r.hostile = s.flip(); std::map<std::string, int> L; bz::Trace exp; std::vector<std::string> out; size_t n = 3 + s.draw(20);
  static const std::vector<std::string> T = {"a", "b", "c"};
  for (size_t i = 0; i < n; ++i) {
    if (s.chance(1, 4)) { std::string t = s.pick(T); int k = (int)s.draw(5); c.note("set " + t + " " + S(k)); r.call("set", {vs(t), vi(k)}); L[t] = k; continue; }
    size_t k = 1 + s.draw(4); uint16_t from = (uint16_t)s.pickl<int>({7, 8});
    for (size_t j = 0; j < k; ++j) {
      MMsg m; m.type = BUZZMSG_BROADCAST; m.topic = vs(s.pick(T)); m.value = rscalar(s); c.note(S(from) + " " + m.str()); r.receive(from, encode(m)); auto it = L.find(m.topic.s); if (it == L.end()) continue; int h = it->second;
      exp.push_back("i:" + S(h) + " " + show(m.topic) + " " + show(m.value) + " i:" + S(from));
      if (h == 0) L.erase(m.topic.s); if (h == 1) out.push_back(m.str()); if (h == 2) L[m.topic.s] = 3; if (h == 3) L["b"] = 4; if (h == 4) { L.erase("a"); L["c"] = 5; }
    }
    r.process(); r.check("in a listener"); if (!buzzdarray_isempty(r.vm()->stack) && buzzdarray_size(r.vm()->stack) > 1) fail("listeners leave values on the stack");
    if (r.w.trace != exp) fail("listener calls differ: " + bz::trace_diff(exp, r.w.trace));
    std::vector<std::string> sent; for (auto& b : r.drain()) sent.push_back(decode(b).str()); if (sent != out) fail("broadcasts made by listeners differ"); out.clear();
  }
  c.nontrivial = exp.size() > 2;
}
int main(int argc, char** argv) {
  std::vector<Test> t = { {"listen", listen, 16000, 300000}, {"crowd", crowd, 8000, 120000}, {"reactive", reactive, 9000, 150000} };
  return run(argc, argv, "P17", t);
}
