// Iterations whose callbacks change the collection being iterated over: an order-agnostic model.
// Rules: every visit shows an entry that exists at that moment, with its current value; an entry that is there throughout
// is visited exactly once; one removed before its turn is not visited; one added on the way may or may not be visited.
#pragma once
#include "vmutil.hpp"
#include <map>
#include <set>

namespace iter {
struct Act { int key; bool del; int val; };
struct Plan {
  std::map<int, int> init; std::map<int, std::vector<Act>> acts;
  std::string str() const { std::string r = "entries:"; for (auto& p : init) r += " " + std::to_string(p.first) + "=" + std::to_string(p.second); r += "\n"; for (auto& p : acts) { r += "at " + std::to_string(p.first) + ":"; for (auto& a : p.second) r += a.del ? " remove " + std::to_string(a.key) : " [" + std::to_string(a.key) + "]=" + std::to_string(a.val); r += "\n"; } return r; }
  // the actions as an if-chain over variable k; set/del give the statements
  template <class Set, class Del> std::string script(Set set, Del del) const {
    std::string r; for (auto& p : acts) { r += "  if(k == " + std::to_string(p.first) + ") {"; for (auto& a : p.second) r += " " + (a.del ? del(a.key) : set(a.key, a.val)); r += " }\n"; } return r;
  }
};
inline Plan plan(pbt::Src& s, bool add) {
  Plan p; size_t n = 1 + s.draw(s.chance(1, 6) ? 40 : 9); int mul = s.pickl<int>({1, 1, 3, 10, 20}); for (size_t i = 0; i < n; ++i) p.init[(int)s.draw(20) * mul + 1] = (int)s.range(1, 50);
  std::vector<int> ks; for (auto& x : p.init) ks.push_back(x.first); int dens = (int)s.range(1, 4);
  for (int k : ks) { if (s.draw(4) >= (uint64_t)dens) continue; size_t m = 1 + s.draw(3); for (size_t i = 0; i < m; ++i) { Act a; a.key = s.flip() ? k : add && s.chance(1, 4) ? (int)s.draw(30) * mul + 1 : s.pick(ks); a.del = s.flip(); if (a.del || add || s.flip()) {} a.val = (int)s.range(51, 99); p.acts[k].push_back(a); } }
  return p;
}
struct Watch {
  const Plan& p; std::map<int, int> cur; std::set<int> pending, seen; size_t visits = 0, changes = 0;
  explicit Watch(const Plan& q) : p(q), cur(q.init) { for (auto& x : q.init) pending.insert(x.first); }
  void visit(int k, int v) {
    auto it = cur.find(k); std::string w = "entry " + std::to_string(k);
    if (it == cur.end()) pbt::fail(w + " is visited although it is no longer there");
    if (it->second != v) pbt::fail(w + " is visited with value " + std::to_string(v) + " instead of " + std::to_string(it->second));
    if (!pending.count(k) && p.init.count(k) && !gone.count(k)) pbt::fail(w + " is visited twice");
    pending.erase(k); ++visits; if (visits > 5000) pbt::fail("the iteration does not end");
    auto a = p.acts.find(k); if (a == p.acts.end()) return;
    for (auto& x : a->second) { ++changes; if (x.del) { if (cur.erase(x.key)) { pending.erase(x.key); gone.insert(x.key); } } else cur[x.key] = x.val; }
  }
  void end() { if (!pending.empty()) pbt::fail("entry " + std::to_string(*pending.begin()) + " is never visited"); }
  std::set<int> gone;
};
// run an already compiled script whose callback logs "@" k v at each visit; feeds the visits to the watch
inline void follow(const bz::Trace& t, Watch& w) {
  for (auto& l : t) { int k, v; if (sscanf(l.c_str(), "s:'@' i:%d i:%d", &k, &v) == 2) w.visit(k, v); }
  w.end();
}
inline std::string table(const std::map<int, int>& m) { std::vector<std::string> v; for (auto& p : m) v.push_back("i:" + std::to_string(p.first) + "=i:" + std::to_string(p.second)); std::sort(v.begin(), v.end()); std::string r = "t{"; for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + v[i]; return r + "}"; }
}  // namespace iter
