// The script library that comes with Buzz: table.bzz, string.bzz, vec2.bzz, neighbors.bzz, arrows.bzz.
#include "model.hpp"
using namespace ref; using namespace pbt; using namespace net;
static std::string inc(const char* f) { const char* d = getenv("BUZZ_SRC_INCLUDE"); return "include \"" + std::string(d ? d : ".") + "/" + f + "\"\n"; }
static bz::Trace script(const std::string& src, Ctx& c, int gc = 0) { c.note(src); bz::Compiled k; bz::compile(src, k); if (!k.assembled) fail("a valid program is rejected"); bz::VM vm(1); if (!vm.load(k.bcode)) fail("load"); uint64_t st = 0; while (vm.vm->state == BUZZVM_STATE_READY && ++st < 20000000) { if (gc && st % gc == 0) vm.vm->heap->max_objs = gc == 1 ? 0 : 1; buzzvm_step(vm.vm); } if (vm.vm->state != BUZZVM_STATE_DONE) fail("the script ends in state " + std::string(buzzvm_state_desc[vm.vm->state]) + ": " + vm.err()); return vm.trace; }
struct N { bool f; int32_t i; float x; double d() const { return f ? (double)x : i; } std::string lit() const { return f ? Printer::fnum(x) : bz::S(i); } std::string dump() const { return f ? bz::fl(x) : "i:" + bz::S(i); } };
static N num(Src& s, int kind) { bool f = kind == 1 || (kind == 2 && s.flip()); int32_t r = s.chance(1, 3) ? (int32_t)s.range(-5, 5) : (int32_t)s.range(-100000, 100000); return f ? N{true, 0, (float)r / 4} : N{false, r, 0}; }
static void tables(Src& s, Ctx& c) {
  int kind = (int)s.draw(3); size_t n = s.len(s.chance(1, 10) ? 150 : 25); std::vector<N> v; std::string src = inc("table.bzz") + "t = {}\n"; for (size_t i = 0; i < n; ++i) { v.push_back(num(s, kind)); src += bz::fmt("t[%zu] = ", i) + v.back().lit() + "\n"; } bz::Trace want; std::string all = "log(size(t)"; for (size_t i = 0; i < n; ++i) all += bz::fmt(", t[%zu]", i); all += ")\n"; auto state = [&](const std::vector<N>& x) { std::string r = "i:" + bz::S(x.size()); for (auto& e : x) r += " " + e.dump(); return r; };
  size_t steps = 1 + s.draw(5); std::vector<std::pair<size_t, std::string>> alt; // where two answers are right
  int what = -1;
  for (size_t k = 0; k < steps; ++k) switch (what = (int)s.draw(7)) {
    case 0: { bool mx = s.flip(); src += mx ? "log(table.max(t))\n" : "log(table.min(t))\n"; if (!n) { want.push_back("nil"); break; } double b = v[0].d(); for (auto& e : v) b = mx ? std::max(b, e.d()) : std::min(b, e.d()); std::string a, a2; for (auto& e : v) if (e.d() == b) { if (a.empty()) a = e.dump(); else if (e.dump() != a) a2 = e.dump(); } want.push_back(a); if (!a2.empty()) alt.push_back({want.size() - 1, a2}); break; }
    case 1: { src += "log(table.maxkey(t), table.minkey(t))\n"; want.push_back(n ? bz::fmt("i:%zu i:0", n - 1) : "nil nil"); break; }
    case 2: { if (!n) break; size_t i = s.draw(n), j = s.draw(n); src += bz::fmt("table.swap(t, %zu, %zu)\n", i, j) + all; std::swap(v[i], v[j]); want.push_back(state(v)); break; }
    case 3: { size_t i = s.draw(n + 2), j = s.draw(n + 2); N a = num(s, kind), b = num(s, kind); src += "log(table.cmp_number(" + a.lit() + ", " + b.lit() + "))\n"; (void)i; (void)j; want.push_back(a.d() <= b.d() ? "i:1" : "i:0"); break; }
    case 4: case 5: { if (n > 60 && k) break; bool desc = s.flip(); src += desc ? "table.sort(t, function(a, b) { return a >= b })\n" : s.flip() ? "table.sort(t, table.cmp_number)\n" : "table.sort(t, function(a, b) { if(a <= b) return 1 else return 0 })\n"; src += all; auto lt = [&](const N& a, const N& b) { if (a.d() != b.d()) return desc ? a.d() > b.d() : a.d() < b.d(); return false; }; std::stable_sort(v.begin(), v.end(), lt); want.push_back(state(v)); if (kind == 2) { want.back() = "?sorted"; std::string w = "i:" + bz::S(n); for (auto& e : v) w += bz::fmt(" %.9g", e.d()); alt.push_back({want.size() - 1, w}); k = steps; } break; }
    default: { std::string lines; src += "table.print(t)\n"; for (size_t i = 0; i < n; ++i) want.push_back(bz::fmt("i:%zu s:' -> ' ", i) + v[i].dump()); break; }
  }
  bz::Trace t = script(src, c, s.chance(1, 5) ? 3 : 0); if (t.size() != want.size()) fail(bz::fmt("%zu lines instead of %zu", t.size(), want.size()));
  std::multiset<std::string> gp, wp; for (size_t i = 0; i < t.size(); ++i) { if (want[i].find(" -> ") != std::string::npos) { gp.insert(t[i]); wp.insert(want[i]); continue; } if (t[i] == want[i]) continue; bool ok = false; for (auto& a : alt) if (a.first == i) { if (want[i] == "?sorted") { std::string g; std::istringstream is(t[i]); std::string w; bool first = true; while (is >> w) { if (first) g = w; else g += bz::fmt(" %.9g", strtod(w.c_str() + 2, nullptr)); first = false; } ok |= g == a.second; } else ok |= t[i] == a.second; } if (!ok) fail(bz::fmt("line %zu is ", i) + t[i] + " instead of " + want[i]); }
  if (gp != wp) fail("table.print does not print every pair"); c.nontrivial = n > 4; c.cls("elements", n);
}
// sorting records by a field and with a comparator that keeps state; keys and swaps of absent elements
static void records(Src& s, Ctx& c) {
  size_t n = s.draw(30); std::vector<std::pair<int, int>> v; std::string src = inc("table.bzz") + "t = {}\n"; for (size_t i = 0; i < n; ++i) { v.push_back({(int)s.range(-9, 9), (int)i}); src += bz::fmt("t[%zu] = { .key = %d, .id = %zu }\n", i, v[i].first, i); }
  src += "calls = 0\nfunction by(a, b) { calls = calls + 1 return a.key <= b.key }\ntable.sort(t, by)\nfor(i = 0, i < " + bz::S(n) + ", i = i + 1) log(t[i].key, t[i].id)\nlog(size(t))\nu = { .1 = 10, .a = 5 }\ntable.swap(u, 1, \"a\")\nlog(u[1], u.a)\ntable.swap(u, 1, 2)\nlog(u[1], u[2], size(u))\ntable.swap(u, 2, 2)\nlog(u[2])\n"; bz::Trace t = script(src, c); if (t.size() != n + 4) fail("number of lines"); std::set<int> ids; int last = -100; for (size_t i = 0; i < n; ++i) { int k = 0, id = 0; if (sscanf(t[i].c_str(), "i:%d i:%d", &k, &id) != 2) fail("record " + t[i]); if (k < last) fail("records are not sorted"); last = k; if (id < 0 || id >= (int)n || v[id].first != k || !ids.insert(id).second) fail("a record was lost or changed"); }
  bz::Trace tail(t.begin() + n, t.end()), w = {"i:" + bz::S(n), "i:5 i:10", "nil i:5 i:2", "i:5"}; if (tail != w) fail(bz::trace_diff(w, tail)); c.nontrivial = n > 4;
}
// a comparator that sorts another table or a row of its own argument, and a script that owns the names the library might use for itself
static void nested(Src& s, Ctx& c) {
  size_t n = s.draw(14); std::vector<std::vector<int>> rows(n); std::string src = inc("table.bzz"); std::vector<std::string> names = {"pivot", "i", "j", "p", "k", "a", "b", "t", "sz", "l", "h", "v", "tmp", "x"}; std::map<std::string, int> mine;
  for (auto& x : names) if (s.flip()) { mine[x] = (int)s.range(-99, 99); src += x + bz::fmt(" = %d\n", mine[x]); } std::string by = s.flip() ? "<=" : ">="; bool copy = s.flip();
  src += "T = {}\n"; for (size_t i = 0; i < n; ++i) { size_t m = 1 + s.draw(4); src += bz::fmt("T[%zu] = {}\n", i); for (size_t k = 0; k < m; ++k) { rows[i].push_back((int)s.range(-6, 6)); src += bz::fmt("T[%zu][%zu] = %d\n", i, k, rows[i][k]); } }
  src += copy ? "function least(r) {\n var o = map(r, function(k, v) { return v })\n table.sort(o, table.cmp_number)\n return o[0]\n}\n" : "function least(r) {\n table.sort(r, table.cmp_number)\n return r[0]\n}\n";
  src += "function order(x, y) {\n return least(x) " + by + " least(y)\n}\ntable.sort(T, order)\nlog(size(T))\n"; for (size_t i = 0; i < n; ++i) src += bz::fmt("log(least(T[%zu]), T[%zu])\n", i, i);
  bool shuf = s.flip(); if (shuf) src += "U = { .0 = 4, .1 = 5, .2 = 6 }\ntable.shuffle(U)\ntable.swap(U, 0, 2)\nlog(U[0] + U[1] + U[2])\n"; for (auto& m : mine) src += "log(" + m.first + ")\n";
  bz::Trace t = script(src, c, s.chance(1, 4) ? 3 : 0); size_t at = 0; auto next = [&]() -> std::string { if (at >= t.size()) fail("too few lines"); return t[at++]; };
  auto expect = [&](const std::string& w, const std::string& what) { std::string g = next(); if (g != w) fail(what + ": " + g + " instead of " + w); }; expect("i:" + bz::S(n), "size of the sorted table"); std::vector<int> mins; std::multiset<std::vector<int>> got, want;
  for (size_t i = 0; i < n; ++i) { std::string l = next(); int m = 0; if (sscanf(l.c_str(), "i:%d", &m) != 1) fail("row " + l); mins.push_back(m); size_t br = l.find("t{"); if (br == std::string::npos) fail("row " + l); std::vector<int> r; for (size_t q = br; (q = l.find("=i:", q)) != std::string::npos; ++q) r.push_back(atoi(l.c_str() + q + 3)); std::sort(r.begin(), r.end()); if (r.empty() || r[0] != m) fail("the least of a row is not " + bz::S(m) + ": " + l); got.insert(r); }
  for (auto r : rows) { std::sort(r.begin(), r.end()); want.insert(r); } if (got != want) fail("rows were lost or changed by the sort"); for (size_t i = 1; i < mins.size(); ++i) if (by == "<=" ? mins[i] < mins[i - 1] : mins[i] > mins[i - 1]) fail("rows are not sorted by their least element");
  if (shuf) expect("i:15", "sum of the shuffled table"); for (auto& m : mine) expect("i:" + bz::S(m.second), "global " + m.first + " after the library was used"); c.nontrivial = n > 3; c.cls("rows", n);
}
static void shuffle(Src& s, Ctx& c) {
  size_t n = s.draw(9), rounds = n <= 4 ? 1500 : 150 * n; int seed = (int)s.range(-100000, 100000); std::string src = inc("table.bzz") + bz::fmt("math.rng.setseed(%d)\nt = {}\n", seed); for (size_t i = 0; i < n; ++i) src += bz::fmt("t[%zu] = %zu\n", i, i); src += bz::fmt("r = 0\nwhile(r < %zu) {\n table.shuffle(t)\n log(size(t)", rounds); for (size_t i = 0; i < n; ++i) src += bz::fmt(", t[%zu]", i); src += ")\n r = r + 1\n}\n";
  bz::Trace t = script(src, c), u = script(src, c); if (t != u) fail("the same seed gives another order"); if (t.size() != rounds) fail("number of lines"); std::vector<std::vector<int>> at(n, std::vector<int>(n, 0)); std::vector<int> was(n), now(n); for (size_t i = 0; i < n; ++i) was[i] = (int)i; for (auto& l : t) { std::istringstream is(l); std::string w; is >> w; if (w != "i:" + bz::S(n)) fail("the size changed: " + l); std::set<int> seen; for (size_t i = 0; i < n; ++i) { is >> w; int x = atoi(w.c_str() + 2); if (w.compare(0, 2, "i:") || x < 0 || x >= (int)n || !seen.insert(x).second) fail("not a permutation: " + l); at[was[x]][i]++; now[x] = (int)i; } was = now; }
  for (size_t x = 0; x < n; ++x) for (size_t i = 0; i < n; ++i) { double p = 1.0 / n, sd = std::sqrt(rounds * p * (1 - p)); if (std::fabs(at[x][i] - rounds * p) > 6.5 * sd + 1) fail(bz::fmt("the element at place %zu gets to place %zu in %d of %zu shuffles", x, i, at[x][i], rounds)); } c.nontrivial = n > 2;
}
static std::string word(Src& s, size_t max) { std::string r; size_t n = s.len(max); bool wide = s.chance(1, 4); for (size_t i = 0; i < n; ++i) r += wide ? (char)s.range(1, 127) : s.pickl<char>({'a', 'b', ',', ' ', ';', 'a'}); return r; }
static std::string qv(const std::string& x) { return "s:" + bz::qs(x); }
static void strings(Src& s, Ctx& c) {
  std::string src = inc("string.bzz"); bz::Trace want; Printer pr; size_t n = 2 + s.draw(12);
  for (size_t k = 0; k < n; ++k) { std::string a = word(s, s.chance(1, 20) ? 120 : 20), b = word(s, 3); if (s.flip() && a.size() > 1) { size_t p = s.draw(a.size()), q = 1 + s.draw(a.size() - p); b = a.substr(p, q); }
    switch (s.draw(4)) {
      case 0: { int32_t i = (int32_t)s.range(-1, (int64_t)a.size() + 1); src += "log(string.charat(" + pr.quote(a) + ", " + bz::S(i) + "))\n"; want.push_back(i < 0 || i >= (int32_t)a.size() ? "nil" : qv(a.substr(i, 1))); break; }
      case 1: if (b.empty()) break; src += "log(string.indexoffirst(" + pr.quote(a) + ", " + pr.quote(b) + "))\n"; { size_t p = a.find(b); want.push_back(p == std::string::npos ? "nil" : "i:" + bz::S(p)); } break;
      case 2: if (b.empty()) break; src += "log(string.indexoflast(" + pr.quote(a) + ", " + pr.quote(b) + "))\n"; { size_t p = a.rfind(b); want.push_back(p == std::string::npos ? "nil" : "i:" + bz::S(p)); } break;
      default: { std::string d = word(s, 3); src += "w = string.split(" + pr.quote(a) + ", " + pr.quote(d) + ")\nlog(w)\n"; std::vector<std::string> t; std::string cur; for (char ch : a) if (d.find(ch) != std::string::npos) { if (!cur.empty()) t.push_back(cur); cur.clear(); } else cur += ch; if (!cur.empty()) t.push_back(cur); std::vector<std::string> items; for (size_t i = 0; i < t.size(); ++i) items.push_back("i:" + bz::S(i) + "=" + qv(t[i])); std::sort(items.begin(), items.end()); std::string w = "t{"; for (size_t i = 0; i < items.size(); ++i) w += (i ? "," : "") + items[i]; want.push_back(w + "}"); } } }
  bz::Trace t = script(src, c, s.chance(1, 5) ? 3 : 0); if (t != want) fail(bz::trace_diff(want, t)); c.nontrivial = want.size() > 3;
}
static void vectors(Src& s, Ctx& c) {
  std::string src = inc("vec2.bzz"); struct Q { double x, y; int n; bool intexact; double mag; }; std::vector<Q> q; size_t n = 2 + s.draw(12);
  for (size_t k = 0; k < n; ++k) {
    int kind = (int)s.draw(2); auto sm = [&]() { N a = num(s, kind); if (std::fabs(a.d()) > 4000) a = a.f ? N{true, 0, std::fmod(a.x, 4000.f)} : N{false, a.i % 4000, 0}; return a; }; N a = sm(), b = sm(), d = sm(), e = sm(), z = sm(); std::string A = "math.vec2.new(" + a.lit() + ", " + b.lit() + ")", B = "math.vec2.new(" + d.lit() + ", " + e.lit() + ")"; double ax = a.d(), ay = b.d(), bx = d.d(), by = e.d(), an = (double)s.range(-700, 700) / 100; std::string AN = Printer::fnum((float)an); an = (float)an; std::string E; Q r{0, 0, 2, false, 0}; int op = (int)s.draw(10);
    switch (op) { case 0: E = A; r = {ax, ay, 2, true, 0}; break; case 1: E = "math.vec2.newp(" + a.lit() + ", " + AN + ")"; r = {ax * std::cos(an), ax * std::sin(an), 2, false, 0}; break; case 2: E = "math.vec2.length(" + A + ")"; r = {std::sqrt(ax * ax + ay * ay), 0, 1, false, 0}; break; case 3: E = "math.vec2.angle(" + A + ")"; r = {std::atan2(ay, ax), 0, 1, false, 0}; break;
      case 4: { double l = std::sqrt(ax * ax + ay * ay); if (l < 1e-3) continue; E = "math.vec2.norm(" + A + ")"; r = {ax / l, ay / l, 2, false, 0}; break; } case 5: E = "math.vec2.add(" + A + ", " + B + ")"; r = {ax + bx, ay + by, 2, true, 0}; break; case 6: E = "math.vec2.sub(" + A + ", " + B + ")"; r = {ax - bx, ay - by, 2, true, 0}; break; case 7: E = "math.vec2.scale(" + A + ", " + z.lit() + ")"; r = {ax * z.d(), ay * z.d(), 2, true, 0}; break;
      case 8: E = "math.vec2.dot(" + A + ", " + B + ")"; r = {ax * bx + ay * by, 0, 1, true, 0}; break; default: E = "math.vec2.rotate(" + A + ", " + AN + ")"; r = {ax * std::cos(an) - ay * std::sin(an), ax * std::sin(an) + ay * std::cos(an), 2, false, 0}; }
    src += "v = " + E + "\n" + (r.n == 2 ? "log(v.x, v.y, size(v))\n" : "log(v)\n"); r.intexact = r.intexact && kind == 0; r.mag = op == 8 ? std::fabs(ax * bx) + std::fabs(ay * by) : op == 3 || op == 4 ? 1 : std::fabs(ax) + std::fabs(ay) + std::fabs(bx) + std::fabs(by); q.push_back(r);
  }
  bz::Trace t = script(src, c); if (t.size() != q.size()) fail("number of lines");
  for (size_t i = 0; i < q.size(); ++i) { std::istringstream is(t[i]); std::string x, y, z; is >> x >> y >> z; if (q[i].n == 2 && z != "i:2") fail("the vector has other elements: " + t[i]); auto cmp = [&](const std::string& g, double w) { if (g.compare(0, 2, q[i].intexact ? "i:" : "f:") != 0) fail(bz::fmt("result %zu: ", i) + t[i] + bz::fmt(", expected %.9g", w)); double v = strtod(g.c_str() + 2, nullptr); if (q[i].intexact ? v != w : std::fabs(v - w) > 2e-6 * std::fabs(w) + 1e-6 * q[i].mag) fail(bz::fmt("result %zu: ", i) + t[i] + bz::fmt(", expected %.9g", w)); }; cmp(x, q[i].x); if (q[i].n == 2) cmp(y, q[i].y); }
  c.nontrivial = n > 3;
}
static void collected(Src& s, Ctx& c) {
  std::string src = inc("neighbors.bzz") + "function collect(t) { neighbors.collect(t) }\nfunction drop(t) { neighbors.reset(t) }\nfunction get(t) { return neighbors.msgs[t] }\nfunction stop(t) { neighbors.ignore(t) }\n"; Robot r(1, src); r.hostile = s.flip(); std::map<std::string, std::map<uint16_t, Val>> m; std::set<std::string> on; static const std::vector<std::string> T = {"a", "b", "c d"}; size_t n = 3 + s.len(30), heard = 0;
  for (size_t k = 0; k < n; ++k) { std::string t = s.pick(T); switch (s.weighted({3, 8, 1, 1})) { case 0: c.note("collect " + t); r.call("collect", {vs(t)}); on.insert(t); break; case 2: c.note("reset " + t); r.call("drop", {vs(t)}); m.erase(t); break; case 3: c.note("ignore " + t); r.call("stop", {vs(t)}); on.erase(t); break;
      default: { size_t q = 1 + s.draw(5); for (size_t i = 0; i < q; ++i) { std::string u = s.pick(T); uint16_t f = (uint16_t)s.range(2, 6); MMsg g; g.type = BUZZMSG_BROADCAST; g.topic = vs(u); g.value = rvalue(s, 1); c.note("robot " + bz::S(f) + " says " + u + " " + show(g.value)); r.receive(f, encode(g)); if (on.count(u)) { m[u][f] = g.value; ++heard; } } r.process(); r.check("on broadcasts"); } }
    for (auto& u : T) { Val w; if (m.count(u)) { w = tab({}); for (auto& p : m[u]) w.tab->kv.push_back({vi(p.first), p.second}); } std::string e = show(w), g = r.call("get", {vs(u)}); if (e != g) fail("collected on " + u + ": " + g + " instead of " + e); } }
  c.nontrivial = heard > 3;
}
static void sequences(Src& s, Ctx& c) {
  size_t n = 1 + s.draw(10); std::string src = inc("arrows.bzz"); bz::Trace want; for (int i = 0; i < 4; ++i) src += bz::fmt("function f%d() { log(%d) }\n", i, i); std::vector<int> q; std::string e; bool whole = s.flip(); for (size_t i = 0; i < n; ++i) { int f = (int)s.draw(4); q.push_back(f); e += i ? bz::fmt(".next(f%d)", f) : bz::fmt("arrows.begin(f%d)", f); }
  if (whole) src += "seq = " + e + "\n"; else { src += bz::fmt("seq = arrows.begin(f%d)\nlast = seq\n", q[0]); for (size_t i = 1; i < n; ++i) src += bz::fmt("last = last.next(f%d)\n", q[i]); } if (s.flip()) src += "other = arrows.begin(f0).next(f3)\n"; size_t runs = 1 + s.draw(3); for (size_t r = 0; r < runs; ++r) { src += "arrows.run(seq)\n"; for (int f : q) want.push_back("i:" + bz::S(f)); }
  bz::Trace t = script(src, c, s.chance(1, 4) ? 2 : 0); if (t != want) fail(bz::trace_diff(want, t)); c.nontrivial = n > 2;
}
int main(int argc, char** argv) {
  return run(argc, argv, "P22", {{"tables", tables, 2800, 100000}, {"nested", nested, 1200, 30000}, {"records", records, 1000, 30000}, {"shuffle", shuffle, 100, 4000}, {"strings", strings, 5000, 150000}, {"vectors", vectors, 3000, 100000}, {"collect", collected, 3000, 100000}, {"sequences", sequences, 1500, 40000}});
}
