// Strings: built-in operations, identity, and the string manager over any history.
#include "lang.hpp"
#include <buzz/buzzstrman.h>
using namespace ref; using namespace pbt;
static std::string rnd(Src& s, size_t max) {
  std::string x; size_t n = s.len(max); int kind = (int)s.draw(4);
  for (size_t i = 0; i < n; ++i) x += kind == 0 ? (char)('a' + s.draw(3)) : kind == 1 ? (char)s.range(1, 255) : kind == 2 ? s.pickl<char>({'0', '1', '9', '-', '.', ' ', 'e', '+'}) : (char)s.range(32, 126);
  return x;
}
static std::string qv(const std::string& s) { return "s:" + bz::qs(s); }
static void ops(Src& s, Ctx& c) {
  std::vector<std::string> v; std::string src; bz::Trace want; Printer pr; size_t n0 = 2 + s.draw(4); std::vector<bool> isnil;
  for (size_t i = 0; i < n0; ++i) { v.push_back(rnd(s, s.chance(1, 30) ? 3000 : 12)); src += bz::fmt("v%zu = ", i) + pr.quote(v.back()) + "\n"; }
  size_t n = 3 + s.len(30);
  for (size_t k = 0; k < n; ++k) {
    size_t a = s.draw(v.size()), b = s.draw(v.size()); std::string A = "v" + bz::S(a), B = "v" + bz::S(b), N = "v" + bz::S(v.size());
    if (s.chance(1, 60) && !v[a].empty()) { // a long string
      size_t want2 = s.pickl<size_t>({200, 33000, 40000, 66000, 140000}); std::string r = v[a]; src += N + " = " + A + "\n"; while (r.size() < want2) { bool dbl = r.size() < 3000 || s.flip(); std::string x = dbl ? N : B; r += dbl ? r : v[b]; if (!dbl && v[b].size() < 200) { r.resize(r.size() - v[b].size()); r += r; x = N; } src += N + " = string.concat(" + N + ", " + x + ")\n"; } v.push_back(r); a = v.size() - 1; A = N; N = "v" + bz::S(v.size()); c.cls("long"); }
    switch (s.draw(10)) {
      case 0: src += "log(string.length(" + A + "))\n"; want.push_back("i:" + bz::S(v[a].size())); break;
      case 1: { size_t cnt = 2 + s.draw(4); std::string r, e = N + " = string.concat("; for (size_t i = 0; i < cnt; ++i) { size_t x = i ? s.draw(v.size()) : a; r += v[x]; e += (i ? ", v" : "v") + bz::S(x); } if (r.size() > 300000) break; src += e + ")\nlog(" + N + ")\n"; v.push_back(r); want.push_back(qv(r)); break; }
      case 2: case 3: { int32_t ls = v[a].size(), p = s.chance(1, 8) ? s.pickl<int32_t>({-1, INT32_MIN + 1, INT32_MAX}) : (int32_t)s.range(-1, ls + 1), q = s.chance(1, 8) ? s.pickl<int32_t>({-1, INT32_MIN + 1, INT32_MAX}) : (int32_t)s.range(0, ls + 2); bool three = s.flip(); std::string r; bool nil = p < 0 || p >= ls || (three && q < p); if (!nil) r = v[a].substr(p, three ? std::min(q, ls) - p : std::string::npos);
        std::string e = "string.sub(" + A + ", " + bz::S(p) + (three ? ", " + bz::S(q) : "") + ")"; src += "log(" + e + ")\n"; want.push_back(nil ? "nil" : qv(r)); if (!nil) { src += N + " = " + e + "\n"; v.push_back(r); } break; }
      case 4: { int32_t i = s.chance(1, 4) ? s.pickl<int32_t>({INT32_MAX, INT32_MIN + 1, 0, -1}) : (int32_t)s.range(-1000000, 1000000); src += N + " = string.tostring(" + bz::S(i) + ")\nlog(" + N + ", string.toint(" + N + "))\n"; v.push_back(bz::S(i)); want.push_back(qv(bz::S(i)) + " i:" + bz::S(i)); break; }
      case 5: { float f = (float)s.range(-1000000, 1000000) / s.pickl<int>({1, 2, 8, 64, 1000}); char bf[64]; snprintf(bf, sizeof bf, "%f", f); src += N + " = string.tostring(" + Printer::fnum(f) + ")\nlog(" + N + ", string.tofloat(" + N + "))\n"; v.push_back(bf); want.push_back(qv(bf) + " " + bz::fl(strtof(bf, nullptr))); break; }
      case 6: { // conversions of arbitrary text
        const std::string& x = v[a]; char* e; errno = 0; long l = strtol(x.c_str(), &e, 10); bool bad = errno || e == x.c_str() || l < INT32_MIN || l > INT32_MAX; bool trail = !bad && *e; if (x.find_first_not_of("0123456789-+") != std::string::npos && !bad && trail) break; src += "log(string.toint(" + A + "))\n"; want.push_back(bad ? "nil" : "i:" + bz::S(l)); break; }
      case 9: { // the decimal representation of any number in range converts back to it
        if (s.flip()) { int64_t l = s.pickl<int64_t>({INT32_MIN, (int64_t)INT32_MIN - 1, INT32_MAX, (int64_t)INT32_MAX + 1, INT32_MIN + 1, INT32_MAX - 1, 0, 4294967295ll, 4294967296ll, 4294967297ll, -4294967296ll, 99999999999ll}); std::string x = bz::S(l); if (s.chance(1, 4) && l >= 0) x = (s.flip() ? "+" : "000") + x; bool bad = l < INT32_MIN || l > INT32_MAX; src += N + " = '" + x + "'\nlog(string.toint(" + N + "))\n"; v.push_back(x); want.push_back(bad ? "nil" : "i:" + bz::S(l)); }
        else { float f = s.flip() ? s.pickl<float>({1e-40f, -1e-42f, 1.4e-45f, 1.1754943508e-38f, 3.4028234e38f, -3.4028234e38f, 1e20f, 1.5f, -0.1f}) : std::ldexp((float)s.range(-8000000, 8000000), (int)s.range(-148, 100)); char bf[64]; snprintf(bf, sizeof bf, s.flip() ? "%.9g" : "%.12e", (double)f); src += N + " = '" + bf + "'\nlog(string.tofloat(" + N + "))\n"; v.push_back(bf); want.push_back(bz::fl(f)); } break; }
      case 7: { const std::string& x = v[a]; if (x.find_first_not_of("0123456789-+.") != std::string::npos || x.size() > 12) break; char* e; errno = 0; float f = strtof(x.c_str(), &e); if (e != x.c_str() && *e) break; src += "log(string.tofloat(" + A + "))\n"; want.push_back(e == x.c_str() ? "nil" : bz::fl(f)); break; }
      default: { int d = v[a].compare(v[b]); src += "log(" + A + " == " + B + ", " + A + " != " + B + ", " + A + " < " + B + ")\n"; want.push_back(bz::fmt("i:%d i:%d i:%d", d == 0, d != 0, d < 0)); }
    }
  }
  // the strings as table keys: equal text, equal key
  src += "t = {}\n"; std::map<std::string, size_t> m; for (size_t i = 0; i < v.size(); ++i) { src += bz::fmt("t[v%zu] = %zu\n", i, i); m[v[i]] = i; } src += "log(size(t))\n"; want.push_back("i:" + bz::S(m.size())); for (size_t i = 0; i < v.size(); ++i) { src += bz::fmt("log(t[v%zu], v%zu)\n", i, i); want.push_back("i:" + bz::S(m[v[i]]) + " " + qv(v[i])); }
  c.note(src); bz::Compiled k; bz::compile(src, k); if (!k.assembled) fail("a valid program is rejected"); bz::VM vm(1); if (!vm.load(k.bcode)) fail("load"); unsigned gc = (unsigned)s.draw(3); uint64_t st = 0;
  while (vm.vm->state == BUZZVM_STATE_READY && ++st < 1000000) { if (gc == 2 || (gc == 1 && st % 7 == 0)) vm.vm->heap->max_objs = gc == 2 ? 0 : 1; buzzvm_step(vm.vm); }
  if (vm.vm->state != BUZZVM_STATE_DONE) fail("the script stopped: " + vm.err()); if (vm.trace != want) fail(bz::trace_diff(want, vm.trace)); c.nontrivial = want.size() > 8; c.cls("operations", want.size());
}
// more distinct strings over the life of a robot than there are identifiers
static void churn(Src& s, Ctx& c) {
  int keep = 1 + (int)s.draw(60), every = (int)s.range(1, 2000), total = 66000 + (int)s.draw(3000); bool fields = s.flip(), drop = s.flip();
  std::string src = bz::fmt("t = {}\nfunction name(i) { return string.concat('n', string.tostring(i)) }\nvar0 = 'constant'\ni = 0\nwhile(i < %d) {\n  w = string.concat('x', string.tostring(i))\n  if(i %% %d == 0) {\n    slot = (i / %d) %% %d\n    t[%s] = w\n  }\n%s  i = i + 1\n}\n", total, every, every, keep, fields ? "name(slot)" : "slot", drop ? "  if(i % 5000 == 4999) { t = {} }\n" : "");
  src += bz::fmt("log(size(t), var0, 'constant' == var0, string.length('constant'))\ni = 0\nwhile(i < %d) { log(i, t[%s]) i = i + 1 }\nlog(string.length(w), w)\nmath2 = math.abs(-3)\nlog(math2)\n", keep, fields ? "name(i)" : "i");
  std::map<int, std::string> m; std::string w; for (int i = 0; i < total; ++i) { w = "x" + bz::S(i); if (i % every == 0) m[(i / every) % keep] = w; if (drop && i % 5000 == 4999) m.clear(); }
  bz::Trace want = {bz::fmt("i:%zu s:'constant' i:1 i:8", m.size())}; for (int i = 0; i < keep; ++i) want.push_back("i:" + bz::S(i) + " " + (m.count(i) ? qv(m[i]) : "nil")); want.push_back("i:" + bz::S(w.size()) + " " + qv(w)); want.push_back("i:3");
  c.note(src); bz::Compiled k; bz::compile(src, k); if (!k.assembled) fail("a valid program is rejected"); bz::VM vm(1); if (!vm.load(k.bcode)) fail("load");
  if (!vm.run(40000000)) fail("the script did not finish"); if (vm.vm->state != BUZZVM_STATE_DONE) fail("the script stopped: " + vm.err()); if (vm.trace != want) fail(bz::trace_diff(want, vm.trace)); c.nontrivial = true;
}
// the string manager against a model
static void manager(Src& s, Ctx& c) {
  buzzstrman_t sm = buzzstrman_new(); struct Rec { uint16_t id; bool prot; }; std::map<std::string, Rec> m; std::map<uint16_t, std::string> back; bool longrun = s.chance(1, 40); size_t n = longrun ? 700 + s.draw(300) : 5 + s.len(120), total = 0, rounds = 0; uint64_t uniq = 0;
  auto reg = [&](const std::string& x, bool p, bool say) { if (say) c.note("register '" + jesc(x) + "' " + bz::S(p)); char* tmp = strdup(x.c_str()); uint16_t id = buzzstrman_register(sm, tmp, p); free(tmp); ++total; auto i = m.find(x);
    if (i != m.end()) { if (i->second.id != id) fail(bz::fmt("'%s' had identifier %u, now %u", jesc(x).c_str(), i->second.id, id)); if (p) i->second.prot = true; return; }
    auto j = back.find(id); if (j != back.end()) fail(bz::fmt("identifier %u is given to '%s' while '%s' still has it (registration %zu)", id, jesc(x).c_str(), jesc(j->second).c_str(), total)); m[x] = {id, p}; back[id] = x; };
  for (size_t i = 0; i < n; ++i) switch (longrun ? 3 + s.draw(2) : s.draw(5)) {
    case 0: case 1: case 2: reg(s.flip() ? rnd(s, 6) : "k" + bz::S(s.draw(40)), s.chance(1, 4), true); break;
    case 3: { size_t k = longrun ? 100 + s.draw(100) : s.draw(10); c.note(bz::fmt("register %zu new strings", k)); for (size_t j = 0; j < k; ++j) reg("u" + bz::S(uniq++), s.chance(1, longrun ? 500 : 20), false); break; }
    default: { // one collection
      ++rounds; buzzstrman_gc_clear(sm); std::map<std::string, Rec> keep; unsigned pct = (unsigned)s.draw(3); if (m.size() > 400) pct = 1; std::vector<std::pair<std::string, Rec>> all(m.begin(), m.end()); c.note(bz::fmt("collect, %zu strings", all.size()));
      if (s.flip()) std::reverse(all.begin(), all.end()); for (auto& x : all) { bool mark = pct == 0 ? s.chance(9, 10) : pct == 1 ? s.chance(1, 10) : s.flip(); if (mark) { buzzstrman_gc_mark(sm, x.second.id); if (s.chance(1, 8)) buzzstrman_gc_mark(sm, x.second.id); } if (mark || x.second.prot) keep[x.first] = x.second; }
      uint16_t any = (uint16_t)s.draw(65536); buzzstrman_gc_mark(sm, any); if (back.count(any)) keep[back[any]] = m[back[any]];
      buzzstrman_gc_prune(sm); for (auto& x : all) if (!keep.count(x.first)) { if (buzzstrman_get(sm, x.second.id)) fail("an unmarked string survives the collection: " + jesc(x.first)); back.erase(x.second.id); } m = keep;
      for (auto& x : m) { const char* g = buzzstrman_get(sm, x.second.id); if (!g || x.first != g) fail(bz::fmt("identifier %u of '%s' yields %s after a collection", x.second.id, jesc(x.first).c_str(), g ? g : "nothing")); }
      if ((size_t)buzzdict_size(sm->str2id) != m.size() || (size_t)buzzdict_size(sm->id2str) != m.size()) fail(bz::fmt("%zu strings are live, the tables hold %d and %d", m.size(), (int)buzzdict_size(sm->str2id), (int)buzzdict_size(sm->id2str))); } }
  for (auto& x : m) { const char* g = buzzstrman_get(sm, x.second.id); if (!g || x.first != g) fail(bz::fmt("identifier %u of '%s' yields %s", x.second.id, jesc(x.first).c_str(), g ? g : "nothing")); }
  for (int i = 0; i < 20; ++i) { uint16_t id = (uint16_t)s.draw(65536); if (!back.count(id) && buzzstrman_get(sm, id)) fail("an identifier that is not in use yields a string"); }
  buzzstrman_destroy(&sm); if (sm) fail("destroying does not clear the pointer"); c.nontrivial = rounds > 0 && total > 5; c.cls("registrations", total); c.cls("collections", rounds); if (total > 65536) c.cls("wrapped");
}
int main(int argc, char** argv) {
  return run(argc, argv, "P18", {{"operations", ops, 9000, 300000}, {"manager", manager, 2000, 60000}, {"identifier-wrap", churn, 16, 400}});
}
